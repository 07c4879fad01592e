From f140e515fa89b1f0e6a6b77194697263e109d8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 01/24] fix: restore namespace context after an empty element

The default namespace and the prefixes declared by an element closed with
end_empty() stayed in effect for the siblings that follow it.
---
 instant-xml/src/ser.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 03703f9..ed51fb6 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -23,6 +23,8 @@ pub struct Serializer<'xml, W: fmt::Write + ?Sized> {
     /// This might be different from the default namespace for child elements in case of
     /// `force_prefix`.
     attribute_ns: Option<&'static str>,
+    /// Namespace context to restore if the element being started turns out to be empty.
+    restore: Option<(&'static str, Vec<Prefix>)>,
     state: State,
 }
 
@@ -34,6 +36,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             prefixes: HashMap::new(),
             default_ns: "",
             attribute_ns: None,
+            restore: None,
             state: State::Element,
         }
     }
@@ -101,6 +104,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
 
         self.state = State::Attribute;
         self.attribute_ns = cx.as_ref().map(|cx| cx.default_ns);
+        self.restore = None;
         let Some(cx) = cx else {
             return Ok(Element {
                 prefix,
@@ -144,6 +148,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             used += 1;
         }
 
+        self.restore = Some((old.default_ns, old.prefixes[..used].to_vec()));
         Ok(Element {
             prefix,
             name,
@@ -213,6 +218,10 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         self.output.write_str(" />")?;
         self.attribute_ns = None;
         self.state = State::Element;
+        if let Some((default_ns, prefixes)) = self.restore.take() {
+            self.restore_context(default_ns, &prefixes);
+        }
+
         Ok(())
     }
 
@@ -233,15 +242,20 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             return Ok(());
         };
 
-        let _ = mem::replace(&mut self.default_ns, old.default_ns);
-        for prefix in old.prefixes.into_iter() {
+        self.restore_context(old.default_ns, &old.prefixes);
+        Ok(())
+    }
+
+    fn restore_context(&mut self, default_ns: &'static str, prefixes: &[Prefix]) {
+        self.default_ns = default_ns;
+        for prefix in prefixes {
             if prefix.ns.is_empty() && prefix.prefix.is_empty() {
                 continue;
             }
 
             let mut entry = match self.prefixes.entry(prefix.ns) {
                 Entry::Occupied(entry) => entry,
-                Entry::Vacant(_) => unreachable!(),
+                Entry::Vacant(_) => continue,
             };
 
             match prefix.prefix {
@@ -253,8 +267,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
                 }
             }
         }
-
-        Ok(())
     }
 
     /// Get the prefix for a namespace URI, if any
-- 
2.43.0


From 25e1ee3d2eba3ff4b12c4a369b6a6a602453ce37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 02/24] fix: respect prefixes hidden by a declaration on an
 inner element

When an element bound a prefix to another namespace, names in the outer
namespace were still written with that prefix, both on the element itself and
in its content.
---
 instant-xml/src/ser.rs | 69 +++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 34 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index ed51fb6..ba52c03 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -1,6 +1,5 @@
 //! XML serialization support code
 
-use std::collections::hash_map::Entry;
 use std::collections::HashMap;
 use std::fmt::{self};
 use std::mem;
@@ -59,8 +58,16 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
 
         let force_prefix = cx.as_ref().is_some_and(|cx| cx.force_prefix);
 
+        // A prefix that this element binds to another namespace cannot be used for its own name
+        let available_prefix = self.prefixes.get(ns).filter(|prefix| {
+            !cx.as_ref().is_some_and(|cx| {
+                let mut declared = cx.prefixes.iter();
+                declared.any(|new| new.prefix == **prefix && new.ns != ns)
+            })
+        });
+
         let (prefix, update_default_ns) =
-            match (ns == self.default_ns, self.prefixes.get(ns), force_prefix) {
+            match (ns == self.default_ns, available_prefix, force_prefix) {
                 // Ns != default ns, force prefix: use prefix, don't change default ns
                 (false, Some(prefix), true) => {
                     self.output.write_fmt(format_args!("<{prefix}:{name}"))?;
@@ -120,35 +127,37 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         };
         let _ = mem::replace(&mut old.default_ns, prev);
 
-        let mut used = 0;
-        for prefix in cx.prefixes.into_iter() {
-            if prefix.prefix.is_empty() {
-                continue;
-            }
-
-            if self.prefixes.contains_key(prefix.ns) {
-                continue;
-            }
+        // Declaring a prefix may hide the one in use for a namespace that didn't need a new one
+        for used in 0..N {
+            let mut prefixes = cx.prefixes.iter();
+            let Some(prefix) = prefixes
+                .find(|prefix| !prefix.prefix.is_empty() && !self.prefixes.contains_key(prefix.ns))
+            else {
+                break;
+            };
 
             self.output
                 .write_fmt(format_args!(" xmlns:{}=\"{}\"", prefix.prefix, prefix.ns))?;
 
-            let prev = match self.prefixes.entry(prefix.ns) {
-                Entry::Occupied(mut entry) => mem::replace(entry.get_mut(), prefix.prefix),
-                Entry::Vacant(entry) => {
-                    entry.insert(prefix.prefix);
-                    ""
+            let shadowed = self.prefixes.iter().find(|(_, v)| **v == prefix.prefix);
+            old.prefixes[used] = match shadowed.map(|(ns, _)| *ns) {
+                Some(ns) => {
+                    self.prefixes.remove(ns);
+                    Prefix {
+                        ns,
+                        prefix: prefix.prefix,
+                    }
                 }
+                None => Prefix {
+                    ns: prefix.ns,
+                    prefix: "",
+                },
             };
 
-            old.prefixes[used] = Prefix {
-                ns: prefix.ns,
-                prefix: prev,
-            };
-            used += 1;
+            self.prefixes.insert(prefix.ns, prefix.prefix);
         }
 
-        self.restore = Some((old.default_ns, old.prefixes[..used].to_vec()));
+        self.restore = Some((old.default_ns, old.prefixes.to_vec()));
         Ok(Element {
             prefix,
             name,
@@ -248,22 +257,14 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
 
     fn restore_context(&mut self, default_ns: &'static str, prefixes: &[Prefix]) {
         self.default_ns = default_ns;
-        for prefix in prefixes {
-            if prefix.ns.is_empty() && prefix.prefix.is_empty() {
-                continue;
-            }
-
-            let mut entry = match self.prefixes.entry(prefix.ns) {
-                Entry::Occupied(entry) => entry,
-                Entry::Vacant(_) => continue,
-            };
-
+        for prefix in prefixes.iter().rev() {
             match prefix.prefix {
                 "" => {
-                    entry.remove();
+                    self.prefixes.remove(prefix.ns);
                 }
                 prev => {
-                    let _ = mem::replace(entry.get_mut(), prev);
+                    self.prefixes.retain(|_, v| *v != prev);
+                    self.prefixes.insert(prefix.ns, prev);
                 }
             }
         }
-- 
2.43.0


From de488f114baa63d4080c57c60d53cc224bd9bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:24 +0000
Subject: [PATCH 03/24] fix: always write namespaced attributes with a prefix

An attribute in the element's default namespace was written without a prefix,
which puts it in no namespace.
---
 instant-xml/src/ser.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index ba52c03..46f94b6 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -17,11 +17,6 @@ pub struct Serializer<'xml, W: fmt::Write + ?Sized> {
     /// update the set with the new prefix.
     prefixes: HashMap<&'static str, &'static str>,
     default_ns: &'static str,
-    /// Default namespace for attributes.
-    ///
-    /// This might be different from the default namespace for child elements in case of
-    /// `force_prefix`.
-    attribute_ns: Option<&'static str>,
     /// Namespace context to restore if the element being started turns out to be empty.
     restore: Option<(&'static str, Vec<Prefix>)>,
     state: State,
@@ -34,7 +29,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             output,
             prefixes: HashMap::new(),
             default_ns: "",
-            attribute_ns: None,
             restore: None,
             state: State::Element,
         }
@@ -110,7 +104,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             };
 
         self.state = State::Attribute;
-        self.attribute_ns = cx.as_ref().map(|cx| cx.default_ns);
         self.restore = None;
         let Some(cx) = cx else {
             return Ok(Element {
@@ -176,8 +169,8 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             return Err(Error::UnexpectedState("invalid state for attribute"));
         }
 
-        let attr_ns = self.attribute_ns.unwrap_or(self.default_ns);
-        match ns.is_empty() || ns == attr_ns {
+        // Unprefixed attributes are in no namespace, regardless of the default namespace
+        match ns.is_empty() {
             true => self.output.write_fmt(format_args!(" {name}=\""))?,
             false => {
                 let prefix = self
@@ -213,7 +206,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         self.output.write_char('>')?;
-        self.attribute_ns = None;
         self.state = State::Element;
         Ok(())
     }
@@ -225,7 +217,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         self.output.write_str(" />")?;
-        self.attribute_ns = None;
         self.state = State::Element;
         if let Some((default_ns, prefixes)) = self.restore.take() {
             self.restore_context(default_ns, &prefixes);
-- 
2.43.0


From fafd411fc6bd2acae36e4b2f2574a44876971110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:38 +0000
Subject: [PATCH 04/24] fix: keep child elements inside an element without
 direct content

With an absent direct value, the element was closed as empty before its child
elements were written.
---
 instant-xml-macros/src/ser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index 445214a..63fcbda 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -334,6 +334,12 @@ impl StructOutput {
             }
         }
 
+        // An absent direct value only makes for an empty element if there are no child elements
+        let has_elements = fields
+            .iter()
+            .any(|(_, meta)| !meta.attribute && !meta.direct);
+        let direct = direct.filter(|_| !has_elements);
+
         if !inline {
             self.body.extend(match (attrs_only, direct) {
                 (true, _) => quote!(serializer.end_empty()?;),
-- 
2.43.0


From a78cf8497a9589279167665d72eca5616190bb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:06 +0000
Subject: [PATCH 05/24] fix: don't leak synthesized text from an empty element

The empty text node for a direct field was queued after the element had ended,
so that it showed up in the content of the parent element.
---
 instant-xml/src/de.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 1313898..088e83d 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -14,6 +14,7 @@ use crate::{Accumulate, Error, FromXml, Id};
 pub struct Deserializer<'cx, 'xml> {
     parent: Element<'xml>,
     level: usize,
+    first: Option<Node<'xml>>,
     done: bool,
     context: Mut<'cx, Context<'xml>>,
 }
@@ -48,6 +49,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
         Self {
             parent,
             level,
+            first: None,
             done: false,
             context,
         }
@@ -97,10 +99,10 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
     where
         'cx: 'a,
     {
-        self.context.records.push_front(node);
         Deserializer {
             parent: self.parent,
             level: self.level,
+            first: Some(node),
             done: self.done,
             context: self.context.borrow(),
         }
@@ -154,7 +156,9 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
     type Item = Result<Node<'xml>, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.done {
+        if let Some(node) = self.first.take() {
+            return Some(Ok(node));
+        } else if self.done {
             return None;
         }
 
-- 
2.43.0


From 83232ac022dea7944fb304b403ba73e359291bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 06/24] fix: reject input that ends before the element is
 closed

---
 instant-xml/src/de.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 088e83d..032b247 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -164,6 +164,7 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
 
         let (prefix, local) = match self.context.next() {
             Some(Ok(Node::Close { prefix, local })) => (prefix, local),
+            None => return Some(Err(Error::UnexpectedEndOfStream)),
             item => return item,
         };
 
-- 
2.43.0


From 8394d91372c9ed1ac958c355ae37923b6c718640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 07/24] fix: reject content after the root element

---
 instant-xml/src/de.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 032b247..4e0065a 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -76,6 +76,16 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
 
         let mut value = T::Accumulator::default();
         T::deserialize(&mut value, "<root element>", self)?;
+        self.ignore()?;
+        if self.context.stack.is_empty() {
+            // Only comments and white space may follow the root element
+            match self.context.next() {
+                Some(Ok(node)) => return Err(Error::UnexpectedNode(format!("{node:?}"))),
+                Some(Err(e)) => return Err(e),
+                None => {}
+            }
+        }
+
         value.try_done("<root element>")
     }
 
-- 
2.43.0


From 7d79fbedfaeb69b437e279ee510edd89f99eedc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:01 +0000
Subject: [PATCH 08/24] fix: treat text interrupted by comments or CDATA
 sections as one value

---
 instant-xml/src/de.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 4e0065a..29b3a5c 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -207,6 +207,26 @@ impl<'xml> Context<'xml> {
         }
     }
 
+    /// Complete a text node that continues across comments and CDATA sections
+    fn text(&mut self, mut text: Cow<'xml, str>) -> Result<Node<'xml>, Error> {
+        loop {
+            let mut parser = self.parser.clone();
+            let next = match parser.next() {
+                Some(Ok(Token::Text { text })) => decode(text.as_str())?,
+                Some(Ok(Token::Cdata { text, .. })) => Cow::Borrowed(text.as_str()),
+                Some(Ok(Token::Comment { .. })) => Cow::Borrowed(""),
+                _ => return Ok(Node::Text(text)),
+            };
+
+            self.parser = parser;
+            match text.is_empty() {
+                true => text = next,
+                false if next.is_empty() => {}
+                false => text.to_mut().push_str(&next),
+            }
+        }
+    }
+
     fn element_id(&self, element: &Element<'xml>) -> Result<Id<'xml>, Error> {
         Ok(Id {
             ns: match (element.default_ns, element.prefix) {
@@ -400,10 +420,10 @@ impl<'xml> Iterator for Context<'xml> {
                     }
                 }
                 Ok(Token::Text { text }) => {
-                    return Some(decode(text.as_str()).map(Node::Text));
+                    return Some(decode(text.as_str()).and_then(|text| self.text(text)));
                 }
                 Ok(Token::Cdata { text, .. }) => {
-                    return Some(Ok(Node::Text(Cow::Borrowed(text.as_str()))));
+                    return Some(self.text(Cow::Borrowed(text.as_str())));
                 }
                 Ok(token @ Token::Declaration { .. }) => {
                     if !self.stack.is_empty() {
-- 
2.43.0


From efef29ae2697fb708b571d9ffb51a4796afacc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:01 +0000
Subject: [PATCH 09/24] fix: keep all text pieces of a dynamically captured
 element

---
 instant-xml/src/any_element.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/any_element.rs b/instant-xml/src/any_element.rs
index 8b84483..bf3473f 100644
--- a/instant-xml/src/any_element.rs
+++ b/instant-xml/src/any_element.rs
@@ -105,7 +105,10 @@ impl<'a> AnyElement<'a> {
                     elem.children
                         .push(Self::deserialize(&mut nested, child_id)?);
                 }
-                Some(Ok(Node::Text(text))) => elem.text = Some(text),
+                Some(Ok(Node::Text(text))) => match &mut elem.text {
+                    Some(prev) => prev.to_mut().push_str(&text),
+                    None => elem.text = Some(text),
+                },
                 Some(Ok(Node::Close { .. })) => break,
                 Some(Ok(_)) => continue,
                 Some(Err(e)) => return Err(e),
-- 
2.43.0


From d3b6a7ca6b50a1efd5c027b367233105f11ae7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 10/24] fix: check element names for the fields of a tuple
 struct

Elements were accepted under any name; an unbound prefix caused a panic.
---
 instant-xml-macros/src/de.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 29b2001..1f0ad33 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -805,6 +805,11 @@ fn unnamed_field(
         let #name = match <#no_lifetime_type as FromXml>::KIND {
             Kind::Element => match deserializer.next() {
                 Some(Ok(Node::Open(data))) => {
+                    let id = deserializer.element_id(&data)?;
+                    if !<#no_lifetime_type as FromXml>::matches(id, None) {
+                        return Err(Error::UnexpectedTag(format!("{:?}", id)));
+                    }
+
                     let mut nested = deserializer.nested(data);
                     let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
                     <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, &mut nested)?;
-- 
2.43.0


From d0ccdd4bb58f486acb7eb3bdfaae91b0005fa619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:07 +0000
Subject: [PATCH 11/24] fix: reject a sign in numeric character references

---
 instant-xml/src/de.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 29b3a5c..32f4a4b 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -501,6 +501,7 @@ fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
                         // Hexadecimal character reference e.g. "&#x007c;" -> '|'
                         str::from_utf8(hex)
                             .ok()
+                            .filter(|hex_str| !hex_str.starts_with('+'))
                             .and_then(|hex_str| u32::from_str_radix(hex_str, 16).ok())
                             .and_then(char::from_u32)
                             .filter(valid_xml_character)
@@ -514,6 +515,7 @@ fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
                         // Decimal character reference e.g. "&#1234;" -> 'Ӓ'
                         str::from_utf8(decimal)
                             .ok()
+                            .filter(|decimal_str| !decimal_str.starts_with('+'))
                             .and_then(|decimal_str| u32::from_str(decimal_str).ok())
                             .and_then(char::from_u32)
                             .filter(valid_xml_character)
-- 
2.43.0


From 2f71cb0b1802b94903e2551468a14bbc286873ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 12/24] fix: escape scalar enum variants and values written
 with display_to_xml

---
 instant-xml-macros/src/ser.rs | 2 +-
 instant-xml/src/impls.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index 63fcbda..b97da11 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -75,7 +75,7 @@ fn serialize_scalar_enum(
                     None => None,
                 };
 
-                serializer.write_str(match self { #variants })?;
+                <str as ToXml>::serialize(match self { #variants }, None, serializer)?;
                 if let Some(element) = element {
                     serializer.write_close(element)?;
                 }
diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 6d07e74..175ab40 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -131,7 +131,7 @@ pub fn display_to_xml(
     field: Option<Id<'_>>,
     serializer: &mut Serializer<'_, impl fmt::Write + ?Sized>,
 ) -> Result<(), Error> {
-    DisplayToXml(value).serialize(field, serializer)
+    DisplayToXml(&encode(&value.to_string())?).serialize(field, serializer)
 }
 
 struct DisplayToXml<'a, T: fmt::Display>(pub &'a T);
-- 
2.43.0


From 9526d3c374d97e6190571c43d0fb7c7ec4af5419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:27 +0000
Subject: [PATCH 13/24] fix: refuse to write characters that XML cannot
 represent

---
 instant-xml/src/de.rs    | 2 +-
 instant-xml/src/impls.rs | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 32f4a4b..97deb8b 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -592,7 +592,7 @@ enum DecodeState {
 const MAX_ENTITY_LEN: usize = 8;
 
 /// Valid character ranges per <https://www.w3.org/TR/xml/#NT-Char>
-fn valid_xml_character(c: &char) -> bool {
+pub(crate) fn valid_xml_character(c: &char) -> bool {
     matches!(c, '\u{9}' | '\u{A}' | '\u{D}' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
 }
 
diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 175ab40..25600ea 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -8,6 +8,7 @@ use std::{any::type_name, marker::PhantomData};
 #[cfg(feature = "chrono")]
 use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
 
+use crate::de::valid_xml_character;
 use crate::ser::Context;
 use crate::{Accumulate, Deserializer, Error, FromXml, Id, Kind, Serializer, ToXml};
 
@@ -563,6 +564,11 @@ fn encode(input: &str) -> Result<Cow<'_, str>, Error> {
             '<' => "&lt;",
             '>' => "&gt;",
             '\'' => "&apos;",
+            c if !valid_xml_character(&c) => {
+                return Err(Error::UnexpectedValue(format!(
+                    "character {c:?} cannot be represented in XML"
+                )))
+            }
             _ => continue,
         };
         result.push_str(input.get(last_end..start).unwrap());
-- 
2.43.0


From 512e2aa40633eec8fd19cf37323d6202d35f91f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:49 +0000
Subject: [PATCH 14/24] fix: reject repeated elements for a single-valued
 element field

As was already the case for scalars, instead of keeping only the last one.
---
 instant-xml-macros/src/de.rs   | 16 ++++++++++++++++
 instant-xml/src/any_element.rs |  6 +++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 1f0ad33..a387944 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -196,6 +196,10 @@ fn deserialize_forward_enum(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 let id = deserializer.parent();
                 #variants else {
                     return Err(Error::UnexpectedTag(format!("{:?}", id)));
@@ -318,6 +322,10 @@ fn deserialize_struct(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 enum __Elements {
                     #elements_enum
                     __Ignore,
@@ -774,6 +782,10 @@ fn deserialize_tuple_struct(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 #declare_values
                 deserializer.ignore()?;
 
@@ -854,6 +866,10 @@ fn deserialize_unit_struct(input: &syn::DeriveInput, meta: &ContainerMeta<'_>) -
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
+                if into.is_some() {
+                    return Err(::instant_xml::Error::DuplicateValue(field));
+                }
+
                 deserializer.ignore()?;
                 *into = Some(Self);
                 Ok(())
diff --git a/instant-xml/src/any_element.rs b/instant-xml/src/any_element.rs
index bf3473f..3a59c66 100644
--- a/instant-xml/src/any_element.rs
+++ b/instant-xml/src/any_element.rs
@@ -149,9 +149,13 @@ where
 
     fn deserialize<'cx>(
         into: &mut Self::Accumulator,
-        _field: &'static str,
+        field: &'static str,
         deserializer: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
+        if into.is_some() {
+            return Err(Error::DuplicateValue(field));
+        }
+
         let id = deserializer.parent();
         *into = Some(Self::deserialize(deserializer, id)?);
         Ok(())
-- 
2.43.0


From 895669cb7af8c5964d4da02631c660b3ee10b5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 15/24] fix: accept an empty element for a borrowed string or
 byte slice

---
 instant-xml/src/de.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 97deb8b..2892cf5 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -450,10 +450,10 @@ pub fn borrow_cow_str<'a, 'xml: 'a>(
         return Err(Error::DuplicateValue(field));
     }
 
-    match deserializer.take_str()? {
-        Some(value) => into.inner = Some(value),
-        None => return Ok(()),
-    };
+    into.inner = Some(match deserializer.take_str()? {
+        Some(value) => value,
+        None => "".into(),
+    });
 
     deserializer.ignore()?;
     Ok(())
@@ -471,12 +471,11 @@ pub fn borrow_cow_slice_u8<'xml>(
         return Err(Error::DuplicateValue(field));
     }
 
-    if let Some(value) = deserializer.take_str()? {
-        *into = Some(match value {
-            Cow::Borrowed(v) => Cow::Borrowed(v.as_bytes()),
-            Cow::Owned(v) => Cow::Owned(v.into_bytes()),
-        });
-    }
+    *into = Some(match deserializer.take_str()? {
+        Some(Cow::Borrowed(v)) => Cow::Borrowed(v.as_bytes()),
+        Some(Cow::Owned(v)) => Cow::Owned(v.into_bytes()),
+        None => Cow::Borrowed(b""),
+    });
 
     deserializer.ignore()?;
     Ok(())
-- 
2.43.0


From b13d13812a9c48883e77d3da881a7eeb6d4c13c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:25 +0000
Subject: [PATCH 16/24] fix: match attributes by the name and namespace of the
 field

A namespaced scalar enum could be written as an attribute but was never found
when reading it back.
---
 instant-xml-macros/src/de.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index a387944..cc7c41e 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -591,9 +591,12 @@ fn named_field<'a>(
         if !tokens.branches.is_empty() {
             tokens.branches.extend(quote!(else));
         }
-        tokens.branches.extend(quote!(
-            if <#no_lifetime_type as FromXml>::matches(id, Some(Id { ns: #ns, name: #field_tag }))
-        ));
+        tokens.branches.extend(match field_meta.attribute {
+            true => quote!(if id == (Id { ns: #ns, name: #field_tag })),
+            false => quote!(
+                if <#no_lifetime_type as FromXml>::matches(id, Some(Id { ns: #ns, name: #field_tag }))
+            ),
+        });
 
         tokens.branches.extend(match field_meta.attribute {
             true => quote!({ __Attributes::#enum_name }),
-- 
2.43.0


From eaf029fdc9807d32775433b28905ee173160a486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 17/24] fix: find scalar fields of transparent structs when
 deserializing

---
 instant-xml-macros/src/de.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index cc7c41e..c2c1caf 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -453,8 +453,9 @@ fn deserialize_inline_struct(
         }
 
         let field_ty = data.no_lifetime_type;
+        let field_id = data.id;
         matches.extend(quote!(
-            <#field_ty as FromXml<'xml>>::matches(id, None)
+            <#field_ty as FromXml<'xml>>::matches(id, Some(#field_id))
         ));
 
         let field_name = &field.ident;
@@ -470,12 +471,12 @@ fn deserialize_inline_struct(
         }
         if let Some(with) = data.deserialize_with {
             deserialize.extend(
-                quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
+                quote!(if <#field_ty as FromXml<'xml>>::matches(current, Some(#field_id)) {
                     #with(&mut into.#field_name, #field_str, deserializer)?;
                 }),
             );
         } else {
-            deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
+            deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, Some(#field_id)) {
                 match <#field_ty as FromXml>::KIND {
                     Kind::Element => {
                         <#field_ty as FromXml>::deserialize(&mut into.#field_name, #field_str, deserializer)?;
@@ -716,6 +717,7 @@ fn named_field<'a>(
 
     Ok(FieldData {
         field_name,
+        id: quote!(::instant_xml::Id { ns: #ns, name: #field_tag }),
         no_lifetime_type,
         deserialize_with,
     })
@@ -723,6 +725,7 @@ fn named_field<'a>(
 
 struct FieldData<'a> {
     field_name: &'a Ident,
+    id: TokenStream,
     no_lifetime_type: syn::Type,
     deserialize_with: Option<syn::Path>,
 }
-- 
2.43.0


From ec14189e7781b64f68e4c1d39f35e891a8f23780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:51 +0000
Subject: [PATCH 18/24] fix: accept dashes and dots in a prefix that is the
 first item of ns()

---
 instant-xml-macros/src/meta.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/instant-xml-macros/src/meta.rs b/instant-xml-macros/src/meta.rs
index 56d145c..27c4fbb 100644
--- a/instant-xml-macros/src/meta.rs
+++ b/instant-xml-macros/src/meta.rs
@@ -131,6 +131,18 @@ impl NamespaceMeta {
                         prefix: segment.ident.to_string(),
                     }
                 }
+                (
+                    NsState::Path {
+                        colon1: None,
+                        colon2: None,
+                        path: Some(path),
+                    },
+                    TokenTree::Punct(punct),
+                ) if matches!(punct.as_char(), '-' | '.') && path.get_ident().is_some() => {
+                    NsState::Eq {
+                        prefix: format!("{}{}", path.require_ident().unwrap(), punct.as_char()),
+                    }
+                }
                 (NsState::Prefix, TokenTree::Ident(id)) => NsState::Eq {
                     prefix: id.to_string(),
                 },
-- 
2.43.0


From b6c41608680350ae01190f65adc6fd8524123dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:15 +0000
Subject: [PATCH 19/24] fix: honor all xml attributes on an item

All but the first #[xml(...)] attribute were silently ignored.
---
 instant-xml-macros/src/meta.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/instant-xml-macros/src/meta.rs b/instant-xml-macros/src/meta.rs
index 27c4fbb..ea7a7ef 100644
--- a/instant-xml-macros/src/meta.rs
+++ b/instant-xml-macros/src/meta.rs
@@ -290,14 +290,17 @@ impl NamespaceMeta {
 }
 
 pub(crate) fn meta_items(attrs: &[syn::Attribute]) -> Vec<(MetaItem, Span)> {
-    let list = match attrs.iter().find(|attr| attr.path().is_ident("xml")) {
-        Some(attr) => match &attr.meta {
-            syn::Meta::List(list) => list,
+    attrs
+        .iter()
+        .filter(|attr| attr.path().is_ident("xml"))
+        .flat_map(|attr| match &attr.meta {
+            syn::Meta::List(list) => list_items(list),
             _ => panic!("expected list in xml attribute"),
-        },
-        None => return Vec::new(),
-    };
+        })
+        .collect()
+}
 
+fn list_items(list: &syn::MetaList) -> Vec<(MetaItem, Span)> {
     let mut items = Vec::new();
     let mut state = MetaState::Start;
     for tree in list.tokens.clone() {
-- 
2.43.0


From 9eb6103bc948b49d24d8b6986e9978de2c39bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 20/24] fix: leave the r# marker of raw identifiers out of
 names

As was already the case for fields.
---
 instant-xml-macros/src/case.rs | 3 ++-
 instant-xml-macros/src/lib.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/instant-xml-macros/src/case.rs b/instant-xml-macros/src/case.rs
index 42908d2..f7634f7 100644
--- a/instant-xml-macros/src/case.rs
+++ b/instant-xml-macros/src/case.rs
@@ -11,6 +11,7 @@ use std::fmt::{self, Debug, Display};
 use proc_macro2::Ident;
 #[cfg(test)]
 use proc_macro2::Span;
+use syn::ext::IdentExt;
 
 use self::RenameRule::*;
 
@@ -66,7 +67,7 @@ impl RenameRule {
 
     /// Apply a renaming rule to an enum variant, returning the version expected in the source.
     pub(crate) fn apply_to_variant(&self, ident: &Ident) -> String {
-        let variant = ident.to_string();
+        let variant = ident.unraw().to_string();
         match *self {
             None | PascalCase => variant,
             LowerCase => variant.to_ascii_lowercase(),
diff --git a/instant-xml-macros/src/lib.rs b/instant-xml-macros/src/lib.rs
index 92fca8c..bf1d4f0 100644
--- a/instant-xml-macros/src/lib.rs
+++ b/instant-xml-macros/src/lib.rs
@@ -8,6 +8,7 @@ use std::mem;
 
 use proc_macro2::{Literal, Span, TokenStream};
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{parse_macro_input, DeriveInput, GenericParam, Generics};
 
@@ -116,7 +117,7 @@ impl<'input> ContainerMeta<'input> {
     fn tag(&self) -> TokenStream {
         match &self.rename {
             Some(name) => quote!(#name),
-            None => self.input.ident.to_string().into_token_stream(),
+            None => self.input.ident.unraw().to_string().into_token_stream(),
         }
     }
 
-- 
2.43.0


From 72f9d3c840aaca0e4942785eea6ffb51c639ad7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:33 +0000
Subject: [PATCH 21/24] fix: leave out absent values behind a reference or box

---
 instant-xml/src/impls.rs | 4 ++++
 instant-xml/src/lib.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 25600ea..74f9c3f 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -526,6 +526,10 @@ impl<T: ToXml + ?Sized> ToXml for Box<T> {
     ) -> Result<(), Error> {
         self.as_ref().serialize(field, serializer)
     }
+
+    fn present(&self) -> bool {
+        self.as_ref().present()
+    }
 }
 
 impl<'xml, T: FromXml<'xml>> FromXml<'xml> for Box<T> {
diff --git a/instant-xml/src/lib.rs b/instant-xml/src/lib.rs
index e44e3e2..e672ff0 100644
--- a/instant-xml/src/lib.rs
+++ b/instant-xml/src/lib.rs
@@ -369,6 +369,10 @@ impl<T: ToXml + ?Sized> ToXml for &T {
     ) -> Result<(), Error> {
         (*self).serialize(field, serializer)
     }
+
+    fn present(&self) -> bool {
+        (*self).present()
+    }
 }
 
 /// Deserialize a type from XML
-- 
2.43.0


From f4bbd605de1053e2695f72633fdb4c8c4e8b4496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:04 +0000
Subject: [PATCH 22/24] fix: keep refusing markup after text was written in an
 attribute value

---
 instant-xml/src/ser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 46f94b6..14af0c2 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -195,7 +195,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         self.output.write_fmt(format_args!("{value}"))?;
-        self.state = State::Element;
         Ok(())
     }
 
-- 
2.43.0


From 4f1737f86fe7a7d1ffd93866d008d7c194b7c1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 23/24] fix: end a deserializer whose element was read to its
 end through for_node

---
 instant-xml/src/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 2892cf5..08b62b6 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -168,7 +168,8 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
     fn next(&mut self) -> Option<Self::Item> {
         if let Some(node) = self.first.take() {
             return Some(Ok(node));
-        } else if self.done {
+        } else if self.done || self.context.stack.len() < self.level {
+            // The element may also have ended in a deserializer made by `for_node()`
             return None;
         }
 
-- 
2.43.0


From 9bc08f64d079210d67dd5d6089b86b18364b5b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 24/24] fix: reject repeated values for fields of type ()

---
 instant-xml/src/impls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 74f9c3f..8fdf8ba 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -827,9 +827,13 @@ impl<'xml> FromXml<'xml> for () {
 
     fn deserialize<'cx>(
         into: &mut Self::Accumulator,
-        _: &'static str,
+        field: &'static str,
         _: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
+        if into.is_some() {
+            return Err(Error::DuplicateValue(field));
+        }
+
         *into = Some(());
         Ok(())
     }
-- 
2.43.0

