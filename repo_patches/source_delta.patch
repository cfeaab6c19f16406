From fe722d94e73e976162adae336d40cfb2c40930fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:09 +0000
Subject: [PATCH 01/37] fix: report end of input before the end tag of an open
 element

---
 instant-xml/src/de.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 1313898..0326f2b 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -160,7 +160,12 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
 
         let (prefix, local) = match self.context.next() {
             Some(Ok(Node::Close { prefix, local })) => (prefix, local),
-            item => return item,
+            Some(item) => return Some(item),
+            None => {
+                // The input ended before the end tag for the current element
+                self.done = true;
+                return Some(Err(Error::UnexpectedEndOfStream));
+            }
         };
 
         if self.context.stack.len() == self.level - 1
-- 
2.43.0


From cf7dd57443fe86302b35864830b6059d3ecd2875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 02/37] fix: do not leak a synthesized text node from an empty
 direct field

---
 instant-xml-macros/src/de.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 29b2001..32ba00d 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -694,8 +694,9 @@ fn named_field<'a>(
                 Ok(value) => value,
                 Err(Error::MissingValue(_)) => {
                     let mut acc = <#no_lifetime_type as FromXml>::Accumulator::default();
-                    let mut nested = deserializer.for_node(Node::Text("".into()));
-                    <#no_lifetime_type as FromXml>::deserialize(&mut acc, #field_str, &mut nested)?;
+                    // The element is exhausted, so the field type sees no content. (A synthesized
+                    // node would not be consumed, and instead leak into the parent element.)
+                    <#no_lifetime_type as FromXml>::deserialize(&mut acc, #field_str, deserializer)?;
                     acc.try_done(#field_str)?
                 }
                 Err(e) => return Err(e),
-- 
2.43.0


From c20bcdb3b4d80aa8a6782beae97f77d8b819bc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:30 +0000
Subject: [PATCH 03/37] fix: keep element open for child elements if direct
 field is absent

---
 instant-xml-macros/src/ser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index 445214a..a406ab3 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -316,10 +316,12 @@ impl StructOutput {
             .map_err(|err| err.to_compile_error())?;
 
         let mut attrs_only = true;
+        let mut direct_only = true;
         let mut direct = None;
         for (field, field_meta) in &fields {
             if !field_meta.attribute {
                 attrs_only = false;
+                direct_only &= field_meta.direct;
             }
 
             if direct.is_some() {
@@ -334,6 +336,8 @@ impl StructOutput {
             }
         }
 
+        // An absent direct field only makes for an empty element if there are no child elements
+        let direct = direct.filter(|_| direct_only);
         if !inline {
             self.body.extend(match (attrs_only, direct) {
                 (true, _) => quote!(serializer.end_empty()?;),
-- 
2.43.0


From 621351d91fb7bfac0efb2c1753e8c5174dbc2e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 04/37] fix: restore namespace context after an empty element

---
 instant-xml/src/ser.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 03703f9..21dad85 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -23,6 +23,8 @@ pub struct Serializer<'xml, W: fmt::Write + ?Sized> {
     /// This might be different from the default namespace for child elements in case of
     /// `force_prefix`.
     attribute_ns: Option<&'static str>,
+    /// Namespace context to restore if the current element turns out to be empty.
+    outer: Option<(&'static str, Vec<Prefix>)>,
     state: State,
 }
 
@@ -34,6 +36,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             prefixes: HashMap::new(),
             default_ns: "",
             attribute_ns: None,
+            outer: None,
             state: State::Element,
         }
     }
@@ -102,6 +105,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         self.state = State::Attribute;
         self.attribute_ns = cx.as_ref().map(|cx| cx.default_ns);
         let Some(cx) = cx else {
+            self.outer = None;
             return Ok(Element {
                 prefix,
                 name,
@@ -144,6 +148,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             used += 1;
         }
 
+        self.outer = Some((old.default_ns, old.prefixes[..used].to_vec()));
         Ok(Element {
             prefix,
             name,
@@ -200,6 +205,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
 
         self.output.write_char('>')?;
         self.attribute_ns = None;
+        self.outer = None;
         self.state = State::Element;
         Ok(())
     }
@@ -212,6 +218,9 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
 
         self.output.write_str(" />")?;
         self.attribute_ns = None;
+        if let Some((default_ns, prefixes)) = self.outer.take() {
+            self.restore(default_ns, &prefixes);
+        }
         self.state = State::Element;
         Ok(())
     }
@@ -233,28 +242,27 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             return Ok(());
         };
 
-        let _ = mem::replace(&mut self.default_ns, old.default_ns);
-        for prefix in old.prefixes.into_iter() {
+        self.restore(old.default_ns, &old.prefixes);
+        Ok(())
+    }
+
+    /// Restore the namespace context that was in effect before an element was started
+    fn restore(&mut self, default_ns: &'static str, prefixes: &[Prefix]) {
+        let _ = mem::replace(&mut self.default_ns, default_ns);
+        for prefix in prefixes {
             if prefix.ns.is_empty() && prefix.prefix.is_empty() {
                 continue;
             }
 
-            let mut entry = match self.prefixes.entry(prefix.ns) {
-                Entry::Occupied(entry) => entry,
-                Entry::Vacant(_) => unreachable!(),
-            };
-
             match prefix.prefix {
                 "" => {
-                    entry.remove();
+                    self.prefixes.remove(prefix.ns);
                 }
                 prev => {
-                    let _ = mem::replace(entry.get_mut(), prev);
+                    self.prefixes.insert(prefix.ns, prev);
                 }
             }
         }
-
-        Ok(())
     }
 
     /// Get the prefix for a namespace URI, if any
-- 
2.43.0


From 8788ce952f0da4fd17c8bc44e69033ce211379c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:53 +0000
Subject: [PATCH 05/37] fix: do not use a prefix where it is bound to another
 namespace

---
 instant-xml/src/ser.rs | 46 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 21dad85..c128c07 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -57,6 +57,12 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             return Err(Error::UnexpectedState("invalid state for element start"));
         }
 
+        // Prefixes that this element binds to another namespace are not usable in its scope
+        let mut hidden = Vec::new();
+        if let Some(cx) = &cx {
+            self.hide_rebound(&cx.prefixes, &mut hidden);
+        }
+
         let force_prefix = cx.as_ref().is_some_and(|cx| cx.force_prefix);
 
         let (prefix, update_default_ns) =
@@ -110,6 +116,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
                 prefix,
                 name,
                 parent: None,
+                hidden,
             });
         };
 
@@ -148,11 +155,14 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             used += 1;
         }
 
-        self.outer = Some((old.default_ns, old.prefixes[..used].to_vec()));
+        let mut outer = old.prefixes[..used].to_vec();
+        outer.extend(&hidden);
+        self.outer = Some((old.default_ns, outer));
         Ok(Element {
             prefix,
             name,
             parent: Some(old),
+            hidden,
         })
     }
 
@@ -243,9 +253,41 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         };
 
         self.restore(old.default_ns, &old.prefixes);
+        self.restore(old.default_ns, &element.hidden);
         Ok(())
     }
 
+    /// Remove prefixes that are about to be declared for a different namespace
+    ///
+    /// Hiding a prefix may cause another declaration to be needed, so iterate until done.
+    fn hide_rebound(&mut self, new: &[Prefix], hidden: &mut Vec<Prefix>) {
+        loop {
+            let before = hidden.len();
+            for (i, prefix) in new.iter().enumerate() {
+                if prefix.prefix.is_empty()
+                    || self.prefixes.contains_key(prefix.ns)
+                    || new[..i]
+                        .iter()
+                        .any(|p| !p.prefix.is_empty() && p.ns == prefix.ns)
+                {
+                    continue;
+                }
+
+                self.prefixes.retain(|&ns, &mut old| {
+                    let keep = old != prefix.prefix;
+                    if !keep {
+                        hidden.push(Prefix { ns, prefix: old });
+                    }
+                    keep
+                });
+            }
+
+            if hidden.len() == before {
+                break;
+            }
+        }
+    }
+
     /// Restore the namespace context that was in effect before an element was started
     fn restore(&mut self, default_ns: &'static str, prefixes: &[Prefix]) {
         let _ = mem::replace(&mut self.default_ns, default_ns);
@@ -285,6 +327,8 @@ pub struct Element<'a, const N: usize> {
     pub name: &'a str,
     /// Namespace context of the parent element, if any
     pub parent: Option<Context<N>>,
+    /// Prefixes of the parent element's context that are bound differently in this element
+    hidden: Vec<Prefix>,
 }
 
 /// Namespace context for serialization
-- 
2.43.0


From 43ce81075dd3263c5122041c6f59a329ec07e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 06/37] fix: treat empty content as an empty string for
 borrowed Cow<str>

---
 instant-xml/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 0326f2b..6a2914b 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -422,7 +422,7 @@ pub fn borrow_cow_str<'a, 'xml: 'a>(
 
     match deserializer.take_str()? {
         Some(value) => into.inner = Some(value),
-        None => return Ok(()),
+        None => into.inner = Some("".into()),
     };
 
     deserializer.ignore()?;
-- 
2.43.0


From a76677d2050a3c99066785c388a791be47558f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:24 +0000
Subject: [PATCH 07/37] fix: do not truncate text at comments and CDATA
 sections

---
 instant-xml/src/de.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 6a2914b..797d8e4 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -2,6 +2,7 @@
 
 use std::borrow::Cow;
 use std::collections::{BTreeMap, VecDeque};
+use std::iter::Peekable;
 use std::ops::{Deref, DerefMut};
 use std::str::{self, FromStr};
 
@@ -181,7 +182,7 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
 }
 
 struct Context<'xml> {
-    parser: Tokenizer<'xml>,
+    parser: Peekable<Tokenizer<'xml>>,
     stack: Vec<Level<'xml>>,
     records: VecDeque<Node<'xml>>,
     limits: Limits,
@@ -190,7 +191,7 @@ struct Context<'xml> {
 impl<'xml> Context<'xml> {
     fn new(input: &'xml str) -> Self {
         Self {
-            parser: Tokenizer::from(input),
+            parser: Tokenizer::from(input).peekable(),
             stack: Vec::new(),
             records: VecDeque::new(),
             limits: Limits::default(),
@@ -244,6 +245,25 @@ impl<'xml> Context<'xml> {
             .rev()
             .find_map(|level| level.prefixes.get(prefix).copied())
     }
+
+    /// Extend `text` with the character data that directly follows it, skipping comments
+    fn text(&mut self, mut text: Cow<'xml, str>) -> Result<Node<'xml>, Error> {
+        loop {
+            let more = match self.parser.peek() {
+                Some(Ok(Token::Text { text })) => decode(text.as_str())?,
+                Some(Ok(Token::Cdata { text, .. })) => Cow::Borrowed(text.as_str()),
+                Some(Ok(Token::Comment { .. })) => Cow::Borrowed(""),
+                _ => return Ok(Node::Text(text)),
+            };
+
+            self.parser.next();
+            if text.is_empty() {
+                text = more;
+            } else if !more.is_empty() {
+                text.to_mut().push_str(&more);
+            }
+        }
+    }
 }
 
 impl<'xml> Iterator for Context<'xml> {
@@ -390,10 +410,10 @@ impl<'xml> Iterator for Context<'xml> {
                     }
                 }
                 Ok(Token::Text { text }) => {
-                    return Some(decode(text.as_str()).map(Node::Text));
+                    return Some(decode(text.as_str()).and_then(|text| self.text(text)));
                 }
                 Ok(Token::Cdata { text, .. }) => {
-                    return Some(Ok(Node::Text(Cow::Borrowed(text.as_str()))));
+                    return Some(self.text(Cow::Borrowed(text.as_str())));
                 }
                 Ok(token @ Token::Declaration { .. }) => {
                     if !self.stack.is_empty() {
-- 
2.43.0


From 24ad6163757e73f57f1a66778f34905d3a59e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 08/37] fix: keep all text of an AnyElement with mixed content

---
 instant-xml/src/any_element.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/any_element.rs b/instant-xml/src/any_element.rs
index 8b84483..bf3473f 100644
--- a/instant-xml/src/any_element.rs
+++ b/instant-xml/src/any_element.rs
@@ -105,7 +105,10 @@ impl<'a> AnyElement<'a> {
                     elem.children
                         .push(Self::deserialize(&mut nested, child_id)?);
                 }
-                Some(Ok(Node::Text(text))) => elem.text = Some(text),
+                Some(Ok(Node::Text(text))) => match &mut elem.text {
+                    Some(prev) => prev.to_mut().push_str(&text),
+                    None => elem.text = Some(text),
+                },
                 Some(Ok(Node::Close { .. })) => break,
                 Some(Ok(_)) => continue,
                 Some(Err(e)) => return Err(e),
-- 
2.43.0


From 2e251db13ff88f436bc667ee02c718e935c09979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:48 +0000
Subject: [PATCH 09/37] fix: write prefix for attributes in the default
 namespace

---
 instant-xml/src/ser.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index c128c07..7adf331 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -178,15 +178,15 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         let attr_ns = self.attribute_ns.unwrap_or(self.default_ns);
-        match ns.is_empty() || ns == attr_ns {
-            true => self.output.write_fmt(format_args!(" {name}=\""))?,
-            false => {
-                let prefix = self
-                    .prefixes
-                    .get(ns)
-                    .ok_or(Error::UnexpectedState("unknown prefix"))?;
-                self.output.write_fmt(format_args!(" {prefix}:{name}=\""))?;
+        match self.prefixes.get(ns) {
+            // The default namespace does not apply to attributes, so use a prefix if there is one
+            Some(prefix) if !ns.is_empty() => {
+                self.output.write_fmt(format_args!(" {prefix}:{name}=\""))?
             }
+            _ if ns.is_empty() || ns == attr_ns => {
+                self.output.write_fmt(format_args!(" {name}=\""))?
+            }
+            _ => return Err(Error::UnexpectedState("unknown prefix")),
         }
 
         self.state = State::Scalar;
-- 
2.43.0


From fd0aa8b842f545fe2f5ec8d083b7558242fc0b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 10/37] fix: escape text of scalar enum variants

---
 instant-xml-macros/src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index a406ab3..5f3c246 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -75,7 +75,7 @@ fn serialize_scalar_enum(
                     None => None,
                 };
 
-                serializer.write_str(match self { #variants })?;
+                <str as ToXml>::serialize(match self { #variants }, None, serializer)?;
                 if let Some(element) = element {
                     serializer.write_close(element)?;
                 }
-- 
2.43.0


From c9c2f3d6a03872988c87e9bb742846057fdaec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:11 +0000
Subject: [PATCH 11/37] fix: reject signs in character references

---
 instant-xml/src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 797d8e4..bcfa868 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -487,7 +487,7 @@ fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
                     [b'g', b't'] => '>',
                     [b'l', b't'] => '<',
                     [b'q', b'u', b'o', b't'] => '"',
-                    [b'#', b'x' | b'X', hex @ ..] => {
+                    [b'#', b'x' | b'X', hex @ ..] if !hex.starts_with(b"+") => {
                         // Hexadecimal character reference e.g. "&#x007c;" -> '|'
                         str::from_utf8(hex)
                             .ok()
@@ -500,7 +500,7 @@ fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
                                 )
                             })?
                     }
-                    [b'#', decimal @ ..] => {
+                    [b'#', decimal @ ..] if !decimal.starts_with(b"+") => {
                         // Decimal character reference e.g. "&#1234;" -> 'Ӓ'
                         str::from_utf8(decimal)
                             .ok()
-- 
2.43.0


From 05cf2da7e3baf0b857a16c0a4a315fa16182e2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:14 +0000
Subject: [PATCH 12/37] fix: refuse to write characters that are not allowed in
 XML

---
 instant-xml/src/de.rs    | 2 +-
 instant-xml/src/impls.rs | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index bcfa868..5250f7c 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -580,7 +580,7 @@ enum DecodeState {
 const MAX_ENTITY_LEN: usize = 8;
 
 /// Valid character ranges per <https://www.w3.org/TR/xml/#NT-Char>
-fn valid_xml_character(c: &char) -> bool {
+pub(crate) fn valid_xml_character(c: &char) -> bool {
     matches!(c, '\u{9}' | '\u{A}' | '\u{D}' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
 }
 
diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 6d07e74..3538be2 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -8,6 +8,7 @@ use std::{any::type_name, marker::PhantomData};
 #[cfg(feature = "chrono")]
 use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
 
+use crate::de::valid_xml_character;
 use crate::ser::Context;
 use crate::{Accumulate, Deserializer, Error, FromXml, Id, Kind, Serializer, ToXml};
 
@@ -563,6 +564,11 @@ fn encode(input: &str) -> Result<Cow<'_, str>, Error> {
             '<' => "&lt;",
             '>' => "&gt;",
             '\'' => "&apos;",
+            c if !valid_xml_character(&c) => {
+                return Err(Error::UnexpectedValue(format!(
+                    "character {c:?} is not allowed in XML"
+                )))
+            }
             _ => continue,
         };
         result.push_str(input.get(last_end..start).unwrap());
-- 
2.43.0


From 655fa31c4c312cfd99dcd71e45500b3ffd2a2e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:17 +0000
Subject: [PATCH 13/37] fix: escape output of display_to_xml()

---
 instant-xml/src/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 3538be2..b6be2c3 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -132,7 +132,7 @@ pub fn display_to_xml(
     field: Option<Id<'_>>,
     serializer: &mut Serializer<'_, impl fmt::Write + ?Sized>,
 ) -> Result<(), Error> {
-    DisplayToXml(value).serialize(field, serializer)
+    value.to_string().serialize(field, serializer)
 }
 
 struct DisplayToXml<'a, T: fmt::Display>(pub &'a T);
-- 
2.43.0


From 3859085c6dfc4bfd430bef83c33f5288f13bd369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:43 +0000
Subject: [PATCH 14/37] fix: reject duplicate elements for single-valued fields

---
 instant-xml-macros/src/de.rs   | 16 ++++++++++++++++
 instant-xml/src/any_element.rs |  6 +++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 32ba00d..9320122 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -196,6 +196,10 @@ fn deserialize_forward_enum(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 let id = deserializer.parent();
                 #variants else {
                     return Err(Error::UnexpectedTag(format!("{:?}", id)));
@@ -318,6 +322,10 @@ fn deserialize_struct(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 enum __Elements {
                     #elements_enum
                     __Ignore,
@@ -775,6 +783,10 @@ fn deserialize_tuple_struct(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 #declare_values
                 deserializer.ignore()?;
 
@@ -850,6 +862,10 @@ fn deserialize_unit_struct(input: &syn::DeriveInput, meta: &ContainerMeta<'_>) -
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
+                if into.is_some() {
+                    return Err(::instant_xml::Error::DuplicateValue(field));
+                }
+
                 deserializer.ignore()?;
                 *into = Some(Self);
                 Ok(())
diff --git a/instant-xml/src/any_element.rs b/instant-xml/src/any_element.rs
index bf3473f..3a59c66 100644
--- a/instant-xml/src/any_element.rs
+++ b/instant-xml/src/any_element.rs
@@ -149,9 +149,13 @@ where
 
     fn deserialize<'cx>(
         into: &mut Self::Accumulator,
-        _field: &'static str,
+        field: &'static str,
         deserializer: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
+        if into.is_some() {
+            return Err(Error::DuplicateValue(field));
+        }
+
         let id = deserializer.parent();
         *into = Some(Self::deserialize(deserializer, id)?);
         Ok(())
-- 
2.43.0


From 7e7c8da4387934f299ad4c2c49f15736ec3b0ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 15/37] fix: forward presence of optional values through
 references and boxes

---
 instant-xml/src/impls.rs | 4 ++++
 instant-xml/src/lib.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index b6be2c3..2596860 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -526,6 +526,10 @@ impl<T: ToXml + ?Sized> ToXml for Box<T> {
     ) -> Result<(), Error> {
         self.as_ref().serialize(field, serializer)
     }
+
+    fn present(&self) -> bool {
+        self.as_ref().present()
+    }
 }
 
 impl<'xml, T: FromXml<'xml>> FromXml<'xml> for Box<T> {
diff --git a/instant-xml/src/lib.rs b/instant-xml/src/lib.rs
index e44e3e2..e672ff0 100644
--- a/instant-xml/src/lib.rs
+++ b/instant-xml/src/lib.rs
@@ -369,6 +369,10 @@ impl<T: ToXml + ?Sized> ToXml for &T {
     ) -> Result<(), Error> {
         (*self).serialize(field, serializer)
     }
+
+    fn present(&self) -> bool {
+        (*self).present()
+    }
 }
 
 /// Deserialize a type from XML
-- 
2.43.0


From dc65284b5b4e61f12366fe8c9429f630e43f1132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 16/37] fix: deserialize scalar fields of transparent structs

---
 instant-xml-macros/src/de.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 9320122..e20ec9e 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -453,8 +453,9 @@ fn deserialize_inline_struct(
         }
 
         let field_ty = data.no_lifetime_type;
+        let field_id = data.id;
         matches.extend(quote!(
-            <#field_ty as FromXml<'xml>>::matches(id, None)
+            <#field_ty as FromXml<'xml>>::matches(id, Some(#field_id))
         ));
 
         let field_name = &field.ident;
@@ -470,12 +471,12 @@ fn deserialize_inline_struct(
         }
         if let Some(with) = data.deserialize_with {
             deserialize.extend(
-                quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
+                quote!(if <#field_ty as FromXml<'xml>>::matches(current, Some(#field_id)) {
                     #with(&mut into.#field_name, #field_str, deserializer)?;
                 }),
             );
         } else {
-            deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
+            deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, Some(#field_id)) {
                 match <#field_ty as FromXml>::KIND {
                     Kind::Element => {
                         <#field_ty as FromXml>::deserialize(&mut into.#field_name, #field_str, deserializer)?;
@@ -715,6 +716,7 @@ fn named_field<'a>(
     Ok(FieldData {
         field_name,
         no_lifetime_type,
+        id: quote!(::instant_xml::Id { ns: #ns, name: #field_tag }),
         deserialize_with,
     })
 }
@@ -722,6 +724,7 @@ fn named_field<'a>(
 struct FieldData<'a> {
     field_name: &'a Ident,
     no_lifetime_type: syn::Type,
+    id: TokenStream,
     deserialize_with: Option<syn::Path>,
 }
 
-- 
2.43.0


From 14fdc2dffa4e48e56785dbd671a10e954f00de5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 17/37] fix: reject documents that are malformed after the
 deserialized content

---
 instant-xml/src/de.rs  | 10 ++++++++++
 instant-xml/src/lib.rs |  5 ++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 5250f7c..3263d9b 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -93,6 +93,16 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
         }
     }
 
+    /// Check that the rest of the document is well-formed after deserializing the root element
+    pub(crate) fn finish(mut self) -> Result<(), Error> {
+        self.ignore()?;
+        match self.context.next() {
+            None => Ok(()),
+            Some(Err(e)) => Err(e),
+            Some(Ok(_)) => Err(Error::UnexpectedState("content after root element")),
+        }
+    }
+
     /// Create a deserializer that will yield the given node first
     pub fn for_node<'a>(&'a mut self, node: Node<'xml>) -> Deserializer<'a, 'xml>
     where
diff --git a/instant-xml/src/lib.rs b/instant-xml/src/lib.rs
index e672ff0..8cbc59c 100644
--- a/instant-xml/src/lib.rs
+++ b/instant-xml/src/lib.rs
@@ -432,7 +432,10 @@ impl<T> Accumulate<Self> for Option<T> {
 ///
 /// This is a convenience function that creates a `Deserializer` and calls `deserialize()`.
 pub fn from_str<'xml, T: FromXml<'xml>>(input: &'xml str) -> Result<T, Error> {
-    Deserializer::new(input)?.deserialize()
+    let mut deserializer = Deserializer::new(input)?;
+    let value = deserializer.deserialize()?;
+    deserializer.finish()?;
+    Ok(value)
 }
 
 /// Serialize a value to an XML string
-- 
2.43.0


From a3171d529699e114bb42bdbe4b476fc828dd2e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:58 +0000
Subject: [PATCH 18/37] fix: reject elements with an undeclared prefix

---
 instant-xml/src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 3263d9b..4d721b9 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -321,7 +321,7 @@ impl<'xml> Iterator for Context<'xml> {
                             default_ns: level.default_ns,
                         };
 
-                        return Some(Ok(Node::Open(element)));
+                        return Some(self.element_id(&element).map(|_| Node::Open(element)));
                     }
                     ElementEnd::Close(prefix, v) => {
                         let Some(level) = self.stack.pop() else {
@@ -361,7 +361,7 @@ impl<'xml> Iterator for Context<'xml> {
                             default_ns: level.default_ns,
                         };
 
-                        return Some(Ok(Node::Open(element)));
+                        return Some(self.element_id(&element).map(|_| Node::Open(element)));
                     }
                 },
                 Ok(Token::Attribute {
-- 
2.43.0


From 97ec8045297e4ff9d960a4c0294e25069f04a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 19/37] fix: do not panic in parent() after the element has
 ended

---
 instant-xml/src/de.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 4d721b9..d47111d 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -14,6 +14,8 @@ use crate::{Accumulate, Error, FromXml, Id};
 /// XML deserializer for iterating over nodes in an element
 pub struct Deserializer<'cx, 'xml> {
     parent: Element<'xml>,
+    /// Namespace of the parent element (its declarations go out of scope once it is done)
+    ns: &'xml str,
     level: usize,
     done: bool,
     context: Mut<'cx, Context<'xml>>,
@@ -46,8 +48,10 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
 
     fn with_context(parent: Element<'xml>, context: Mut<'cx, Context<'xml>>) -> Self {
         let level = context.stack.len();
+        let ns = context.element_id(&parent).map_or("", |id| id.ns);
         Self {
             parent,
+            ns,
             level,
             done: false,
             context,
@@ -111,6 +115,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
         self.context.records.push_front(node);
         Deserializer {
             parent: self.parent,
+            ns: self.ns,
             level: self.level,
             done: self.done,
             context: self.context.borrow(),
@@ -136,10 +141,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
     /// Get the identifier of the parent element
     pub fn parent(&self) -> Id<'xml> {
         Id {
-            ns: match self.parent.prefix {
-                Some(ns) => self.context.lookup(ns).unwrap(),
-                None => self.context.default_ns(),
-            },
+            ns: self.ns,
             name: self.parent.local,
         }
     }
-- 
2.43.0


From c9fbd1695017a8309471f7ebd72966685201bc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:47 +0000
Subject: [PATCH 20/37] fix: avoid level underflow in a deserializer nested
 after the root has ended

---
 instant-xml/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index d47111d..e7034aa 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -181,7 +181,7 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
             }
         };
 
-        if self.context.stack.len() == self.level - 1
+        if self.context.stack.len() + 1 == self.level
             && local == self.parent.local
             && prefix == self.parent.prefix
         {
-- 
2.43.0


From 5da411612f19cd1024c75175cdec1000bd260c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:51 +0000
Subject: [PATCH 21/37] fix: match attribute fields by the field's name only

---
 instant-xml-macros/src/de.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index e20ec9e..1c87784 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -592,13 +592,16 @@ fn named_field<'a>(
         if !tokens.branches.is_empty() {
             tokens.branches.extend(quote!(else));
         }
-        tokens.branches.extend(quote!(
-            if <#no_lifetime_type as FromXml>::matches(id, Some(Id { ns: #ns, name: #field_tag }))
-        ));
-
         tokens.branches.extend(match field_meta.attribute {
-            true => quote!({ __Attributes::#enum_name }),
-            false => quote!({ __Elements::#enum_name }),
+            // The name of an attribute depends only on the field, never on the field's type
+            true => quote!(
+                if id == (Id { ns: #ns, name: #field_tag }) { __Attributes::#enum_name }
+            ),
+            false => quote!(
+                if <#no_lifetime_type as FromXml>::matches(id, Some(Id { ns: #ns, name: #field_tag })) {
+                    __Elements::#enum_name
+                }
+            ),
         });
     }
 
-- 
2.43.0


From e39745d4a51f2b87b704c4c6b8fc5225410a0c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:16 +0000
Subject: [PATCH 22/37] fix: honour every xml attribute on an item, not only
 the first

---
 instant-xml-macros/src/meta.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/instant-xml-macros/src/meta.rs b/instant-xml-macros/src/meta.rs
index 56d145c..941816f 100644
--- a/instant-xml-macros/src/meta.rs
+++ b/instant-xml-macros/src/meta.rs
@@ -278,15 +278,18 @@ impl NamespaceMeta {
 }
 
 pub(crate) fn meta_items(attrs: &[syn::Attribute]) -> Vec<(MetaItem, Span)> {
-    let list = match attrs.iter().find(|attr| attr.path().is_ident("xml")) {
-        Some(attr) => match &attr.meta {
-            syn::Meta::List(list) => list,
+    let mut items = Vec::new();
+    for attr in attrs.iter().filter(|attr| attr.path().is_ident("xml")) {
+        match &attr.meta {
+            syn::Meta::List(list) => list_items(list, &mut items),
             _ => panic!("expected list in xml attribute"),
-        },
-        None => return Vec::new(),
-    };
+        }
+    }
 
-    let mut items = Vec::new();
+    items
+}
+
+fn list_items(list: &syn::MetaList, items: &mut Vec<(MetaItem, Span)>) {
     let mut state = MetaState::Start;
     for tree in list.tokens.clone() {
         let span = tree.span();
@@ -372,8 +375,6 @@ pub(crate) fn meta_items(attrs: &[syn::Attribute]) -> Vec<(MetaItem, Span)> {
             }
         };
     }
-
-    items
 }
 
 #[derive(Debug)]
-- 
2.43.0


From fe95e8268d35397b6be6db8dce8900b215f53c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 23/37] fix: accept a dashed or dotted prefix as the first ns
 entry

---
 instant-xml-macros/src/meta.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/instant-xml-macros/src/meta.rs b/instant-xml-macros/src/meta.rs
index 941816f..1a01b73 100644
--- a/instant-xml-macros/src/meta.rs
+++ b/instant-xml-macros/src/meta.rs
@@ -131,6 +131,18 @@ impl NamespaceMeta {
                         prefix: segment.ident.to_string(),
                     }
                 }
+                (
+                    NsState::Path {
+                        colon1: None,
+                        colon2: None,
+                        path: Some(path),
+                    },
+                    TokenTree::Punct(punct),
+                ) if matches!(punct.as_char(), '-' | '.') && path.get_ident().is_some() => {
+                    NsState::Eq {
+                        prefix: format!("{}{}", path.get_ident().unwrap(), punct.as_char()),
+                    }
+                }
                 (NsState::Prefix, TokenTree::Ident(id)) => NsState::Eq {
                     prefix: id.to_string(),
                 },
-- 
2.43.0


From a1d6708bcff5f2d0095f38a477d7a9e1a91b7893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:45 +0000
Subject: [PATCH 24/37] fix: check the element name of tuple struct fields

---
 instant-xml-macros/src/de.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 1c87784..a21f732 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -824,6 +824,11 @@ fn unnamed_field(
         let #name = match <#no_lifetime_type as FromXml>::KIND {
             Kind::Element => match deserializer.next() {
                 Some(Ok(Node::Open(data))) => {
+                    let id = deserializer.element_id(&data)?;
+                    if !<#no_lifetime_type as FromXml>::matches(id, None) {
+                        return Err(Error::UnexpectedTag(format!("{:?}", id)));
+                    }
+
                     let mut nested = deserializer.nested(data);
                     let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
                     <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, &mut nested)?;
-- 
2.43.0


From 3df0bf1ae83773de967dffe12036a4f061f8da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:02 +0000
Subject: [PATCH 25/37] fix: consume the node when deserializing the unit type

---
 instant-xml/src/impls.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 2596860..6e3a3f4 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -8,7 +8,7 @@ use std::{any::type_name, marker::PhantomData};
 #[cfg(feature = "chrono")]
 use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
 
-use crate::de::valid_xml_character;
+use crate::de::{valid_xml_character, Node};
 use crate::ser::Context;
 use crate::{Accumulate, Deserializer, Error, FromXml, Id, Kind, Serializer, ToXml};
 
@@ -827,9 +827,18 @@ impl<'xml> FromXml<'xml> for () {
 
     fn deserialize<'cx>(
         into: &mut Self::Accumulator,
-        _: &'static str,
-        _: &mut Deserializer<'cx, 'xml>,
+        field: &'static str,
+        deserializer: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
+        if into.is_some() {
+            return Err(Error::DuplicateValue(field));
+        }
+
+        // Consume the current node, because it might otherwise be yielded again
+        if let Some(Node::Open(element)) = deserializer.next().transpose()? {
+            deserializer.nested(element).ignore()?;
+        }
+
         *into = Some(());
         Ok(())
     }
-- 
2.43.0


From 69762b12f0cf121e9c88dff27714ccc0a1a1957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:41 +0000
Subject: [PATCH 26/37] fix: do not drop a partially present transparent struct

---
 instant-xml/src/impls.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 6e3a3f4..5e6bb17 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -394,6 +394,7 @@ impl<'xml, T: FromXml<'xml>> FromXml<'xml> for Option<T> {
         deserializer: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
         <T>::deserialize(&mut into.value, field, deserializer)?;
+        into.seen |= T::KIND == Kind::Element;
         Ok(())
     }
 
@@ -404,6 +405,8 @@ impl<'xml, T: FromXml<'xml>> FromXml<'xml> for Option<T> {
 /// Accumulator for deserializing `Option<T>` values
 pub struct OptionAccumulator<T, A: Accumulate<T>> {
     value: A,
+    /// Whether an element was deserialized into `value`, so that it cannot be absent
+    seen: bool,
     marker: PhantomData<T>,
 }
 
@@ -418,6 +421,7 @@ impl<T, A: Accumulate<T>> Default for OptionAccumulator<T, A> {
     fn default() -> Self {
         Self {
             value: A::default(),
+            seen: false,
             marker: PhantomData,
         }
     }
@@ -427,6 +431,7 @@ impl<T, A: Accumulate<T>> Accumulate<Option<T>> for OptionAccumulator<T, A> {
     fn try_done(self, field: &'static str) -> Result<Option<T>, Error> {
         match self.value.try_done(field) {
             Ok(value) => Ok(Some(value)),
+            Err(e) if self.seen => Err(e),
             Err(_) => Ok(None),
         }
     }
-- 
2.43.0


From 2cf862bf0ebbcd5613f5ced0499917734279f7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 27/37] fix: report errors from the accumulator of a forward
 enum's variant

---
 instant-xml-macros/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index a21f732..01fe556 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -172,7 +172,7 @@ fn deserialize_forward_enum(
             quote!(if <#no_lifetime_type as FromXml>::matches(id, None) {
                 let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
                 <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, deserializer)?;
-                *into = ::instant_xml::Accumulate::try_done(value, #field_str).map(#ident::#v_ident).ok();
+                *into = Some(#ident::#v_ident(::instant_xml::Accumulate::try_done(value, #field_str)?));
             }),
         );
     }
-- 
2.43.0


From 037bc6ba42474980cf1d9a3d947869643f86e0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 28/37] fix: stay in the attribute value after writing a string
 to it

A value that wrote a string could then start an element (or write markup)
inside the quotes, because the serializer considered itself in element
content until the attribute was done.
---
 instant-xml/src/ser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 7adf331..83c99da 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -203,7 +203,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         self.output.write_fmt(format_args!("{value}"))?;
-        self.state = State::Element;
         Ok(())
     }
 
-- 
2.43.0


From 5de8da04567ca3818e25ac8ebfb162aef042f44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 29/37] fix: support `deserialize_with` and `borrow` for
 attributes

The generated code did not compile. Deserializing from the value of an
attribute now sees just that node, so that functions can `ignore()` the
rest as they do for elements.
---
 instant-xml-macros/src/de.rs |  2 +-
 instant-xml/src/de.rs        | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 01fe556..cfd565a 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -682,7 +682,7 @@ fn named_field<'a>(
         if let Some(with) = &deserialize_with {
             tokens.r#match.extend(quote!(
                 __Attributes::#enum_name => {
-                    let mut nested = deserializer.nested(data);
+                    let mut nested = deserializer.for_node(Node::AttributeValue(attr.value));
                     #with(&mut #val_name, #field_str, &mut nested)?;
                 },
             ));
diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index e7034aa..40d4997 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -17,6 +17,8 @@ pub struct Deserializer<'cx, 'xml> {
     /// Namespace of the parent element (its declarations go out of scope once it is done)
     ns: &'xml str,
     level: usize,
+    /// Whether this yields only the value of an attribute
+    attribute: bool,
     done: bool,
     context: Mut<'cx, Context<'xml>>,
 }
@@ -53,6 +55,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
             parent,
             ns,
             level,
+            attribute: false,
             done: false,
             context,
         }
@@ -108,16 +111,20 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
     }
 
     /// Create a deserializer that will yield the given node first
+    ///
+    /// Given the value of an attribute, the deserializer yields nothing else.
     pub fn for_node<'a>(&'a mut self, node: Node<'xml>) -> Deserializer<'a, 'xml>
     where
         'cx: 'a,
     {
+        let attribute = self.attribute || matches!(node, Node::AttributeValue(_));
         self.context.records.push_front(node);
         Deserializer {
             parent: self.parent,
             ns: self.ns,
             level: self.level,
-            done: self.done,
+            attribute,
+            done: self.done && !attribute,
             context: self.context.borrow(),
         }
     }
@@ -171,6 +178,7 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
             return None;
         }
 
+        self.done = self.attribute;
         let (prefix, local) = match self.context.next() {
             Some(Ok(Node::Close { prefix, local })) => (prefix, local),
             Some(item) => return Some(item),
-- 
2.43.0


From afb54a40d47e5e491113882efd5ba46f81e5f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 30/37] fix: derive names from identifiers that are raw or
 start with a multi-byte character

---
 instant-xml-macros/src/case.rs | 19 +++++++++++++------
 instant-xml-macros/src/de.rs   |  6 +++++-
 instant-xml-macros/src/lib.rs  |  3 ++-
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/instant-xml-macros/src/case.rs b/instant-xml-macros/src/case.rs
index 42908d2..a0959f7 100644
--- a/instant-xml-macros/src/case.rs
+++ b/instant-xml-macros/src/case.rs
@@ -11,6 +11,7 @@ use std::fmt::{self, Debug, Display};
 use proc_macro2::Ident;
 #[cfg(test)]
 use proc_macro2::Span;
+use syn::ext::IdentExt;
 
 use self::RenameRule::*;
 
@@ -66,12 +67,12 @@ impl RenameRule {
 
     /// Apply a renaming rule to an enum variant, returning the version expected in the source.
     pub(crate) fn apply_to_variant(&self, ident: &Ident) -> String {
-        let variant = ident.to_string();
+        let variant = ident.unraw().to_string();
         match *self {
             None | PascalCase => variant,
             LowerCase => variant.to_ascii_lowercase(),
             UpperCase => variant.to_ascii_uppercase(),
-            CamelCase => variant[..1].to_ascii_lowercase() + &variant[1..],
+            CamelCase => lower_first(&variant),
             SnakeCase => {
                 let mut snake = String::new();
                 for (i, ch) in variant.char_indices() {
@@ -113,10 +114,7 @@ impl RenameRule {
                 }
                 pascal
             }
-            CamelCase => {
-                let pascal = PascalCase.apply_to_field(ident);
-                pascal[..1].to_ascii_lowercase() + &pascal[1..]
-            }
+            CamelCase => lower_first(&PascalCase.apply_to_field(ident)),
             ScreamingSnakeCase => field.to_ascii_uppercase(),
             KebabCase => field.replace('_', "-"),
             ScreamingKebabCase => ScreamingSnakeCase.apply_to_field(ident).replace('_', "-"),
@@ -124,6 +122,15 @@ impl RenameRule {
     }
 }
 
+/// Turns the first character, which may take up more than one byte, into lower case
+fn lower_first(name: &str) -> String {
+    let mut chars = name.chars();
+    match chars.next() {
+        Some(first) => first.to_ascii_lowercase().to_string() + chars.as_str(),
+        Option::None => String::new(),
+    }
+}
+
 pub(crate) struct ParseError<'a> {
     unknown: &'a str,
 }
diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index cfd565a..dd4d657 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -2,6 +2,7 @@ use std::collections::BTreeSet;
 
 use proc_macro2::{Ident, Literal, Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 
 use super::{
@@ -492,7 +493,10 @@ fn deserialize_inline_struct(
 
     // Attributes
     let ident = &input.ident;
-    let accumulator = Ident::new(&format!("__{ident}Accumulator"), Span::call_site());
+    let accumulator = Ident::new(
+        &format!("__{}Accumulator", ident.unraw()),
+        Span::call_site(),
+    );
     let generics = meta.xml_generics(borrowed);
 
     let (xml_impl_generics, xml_ty_generics, _) = generics.split_for_impl();
diff --git a/instant-xml-macros/src/lib.rs b/instant-xml-macros/src/lib.rs
index 92fca8c..bf1d4f0 100644
--- a/instant-xml-macros/src/lib.rs
+++ b/instant-xml-macros/src/lib.rs
@@ -8,6 +8,7 @@ use std::mem;
 
 use proc_macro2::{Literal, Span, TokenStream};
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{parse_macro_input, DeriveInput, GenericParam, Generics};
 
@@ -116,7 +117,7 @@ impl<'input> ContainerMeta<'input> {
     fn tag(&self) -> TokenStream {
         match &self.rename {
             Some(name) => quote!(#name),
-            None => self.input.ident.to_string().into_token_stream(),
+            None => self.input.ident.unraw().to_string().into_token_stream(),
         }
     }
 
-- 
2.43.0


From 52b4880a0beda1aa7e8214d6b825188f4b19a073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:12 +0000
Subject: [PATCH 31/37] fix: let transparent structs have type parameters

---
 instant-xml-macros/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index dd4d657..3203761 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -527,7 +527,7 @@ fn deserialize_inline_struct(
             const KIND: ::instant_xml::Kind = ::instant_xml::Kind::Element;
         }
 
-        #visibility struct #accumulator #xml_ty_generics #where_clause {
+        #visibility struct #accumulator #xml_impl_generics #where_clause {
             #acc_field_defs
         }
 
-- 
2.43.0


From dfe4e649afa3f84423177423af6a128ca161e278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:15 +0000
Subject: [PATCH 32/37] fix: do not shadow types named W in derived ToXml impls

---
 instant-xml-macros/src/ser.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index 5f3c246..38a855e 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -61,10 +61,10 @@ fn serialize_scalar_enum(
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     quote!(
         impl #impl_generics ToXml for #ident #ty_generics #where_clause {
-            fn serialize<W: ::core::fmt::Write + ?::core::marker::Sized>(
+            fn serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
                 &self,
                 field: Option<::instant_xml::Id<'_>>,
-                serializer: &mut instant_xml::Serializer<W>,
+                serializer: &mut instant_xml::Serializer<__W>,
             ) -> ::std::result::Result<(), instant_xml::Error> {
                 let element = match field {
                     Some(id) => {
@@ -148,10 +148,10 @@ fn serialize_forward_enum(
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
     quote!(
         impl #impl_generics ToXml for #ident #ty_generics #where_clause {
-            fn serialize<W: ::core::fmt::Write + ?::core::marker::Sized>(
+            fn serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
                 &self,
                 field: Option<::instant_xml::Id<'_>>,
-                serializer: &mut instant_xml::Serializer<W>,
+                serializer: &mut instant_xml::Serializer<__W>,
             ) -> ::std::result::Result<(), instant_xml::Error> {
                 match self {
                     #variants
@@ -211,10 +211,10 @@ fn serialize_struct(
 
     quote!(
         impl #impl_generics ToXml for #ident #ty_generics #where_clause {
-            fn serialize<W: ::core::fmt::Write + ?::core::marker::Sized>(
+            fn serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
                 &self,
                 field: Option<::instant_xml::Id<'_>>,
-                serializer: &mut instant_xml::Serializer<W>,
+                serializer: &mut instant_xml::Serializer<__W>,
             ) -> ::std::result::Result<(), instant_xml::Error> {
                 // Start tag
                 #context
@@ -282,10 +282,10 @@ fn serialize_inline_struct(
     let ident = &input.ident;
     quote!(
         impl #impl_generics ToXml for #ident #ty_generics #where_clause {
-            fn serialize<W: ::core::fmt::Write + ?::core::marker::Sized>(
+            fn serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
                 &self,
                 field: Option<::instant_xml::Id<'_>>,
-                serializer: &mut instant_xml::Serializer<W>,
+                serializer: &mut instant_xml::Serializer<__W>,
             ) -> ::std::result::Result<(), instant_xml::Error> {
                 #out
                 Ok(())
-- 
2.43.0


From 54a5b0877b02f57f67862a876e5e73db436118fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:03 +0000
Subject: [PATCH 33/37] fix: reject duplicate attributes and namespace
 declarations

---
 instant-xml/src/de.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 40d4997..0d54701 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -382,6 +382,9 @@ impl<'xml> Iterator for Context<'xml> {
                 }) => {
                     if prefix.is_empty() && local.as_str() == "xmlns" {
                         match self.stack.last_mut() {
+                            Some(level) if level.default_ns.is_some() => {
+                                return Some(Err(duplicate_attribute("xmlns")));
+                            }
                             Some(level) => level.default_ns = Some(value.as_str()),
                             None => {
                                 return Some(Err(Error::UnexpectedState(
@@ -392,6 +395,10 @@ impl<'xml> Iterator for Context<'xml> {
                     } else if prefix.as_str() == "xmlns" {
                         match self.stack.last_mut() {
                             Some(level) => {
+                                if level.prefixes.contains_key(local.as_str()) {
+                                    return Some(Err(duplicate_attribute(&local)));
+                                }
+
                                 if level.prefixes.len() >= self.limits.max_ns_declarations {
                                     return Some(Err(Error::Other(
                                         "maximum number of namespace declarations exceeded"
@@ -419,12 +426,25 @@ impl<'xml> Iterator for Context<'xml> {
                             Err(e) => return Some(Err(e)),
                         };
 
-                        self.records.push_back(Node::Attribute(Attribute {
-                            prefix: match prefix.is_empty() {
+                        let (prefix, local) = (
+                            match prefix.is_empty() {
                                 true => None,
                                 false => Some(prefix.as_str()),
                             },
-                            local: local.as_str(),
+                            local.as_str(),
+                        );
+
+                        let duplicate = self.records.iter().any(|record| match record {
+                            Node::Attribute(attr) => attr.local == local && attr.prefix == prefix,
+                            _ => false,
+                        });
+                        if duplicate {
+                            return Some(Err(duplicate_attribute(local)));
+                        }
+
+                        self.records.push_back(Node::Attribute(Attribute {
+                            prefix,
+                            local,
                             value,
                         }));
                     }
@@ -492,6 +512,10 @@ pub fn borrow_cow_slice_u8<'xml>(
     Ok(())
 }
 
+fn duplicate_attribute(name: &str) -> Error {
+    Error::Other(format!("duplicate attribute: {name}"))
+}
+
 fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
     let mut result = String::new();
     let (mut state, mut last_end) = (DecodeState::Normal, 0);
-- 
2.43.0


From 693b62dacc024c12b3698d907c95ed455af23a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:21 +0000
Subject: [PATCH 34/37] fix: reject names with an empty prefix

---
 instant-xml/src/de.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 0d54701..b2c5bff 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -299,6 +299,18 @@ impl<'xml> Iterator for Context<'xml> {
 
         loop {
             match self.parser.next()? {
+                // The tokenizer does not distinguish `:a` from `a`
+                Ok(
+                    Token::ElementStart { span, .. }
+                    | Token::ElementEnd { span, .. }
+                    | Token::Attribute { span, .. },
+                ) if span
+                    .as_str()
+                    .trim_start_matches(['<', '/'])
+                    .starts_with(':') =>
+                {
+                    return Some(Err(Error::UnknownPrefix(String::new())));
+                }
                 Ok(Token::ElementStart { prefix, local, .. }) => {
                     if self.stack.len() >= self.limits.max_levels {
                         return Some(Err(Error::Other(
-- 
2.43.0


From 82cb73ec3cbdd0c168806133da8ebbff36a3b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 35/37] fix: refuse &#X..; with an upper-case X, which is no
 character reference

---
 instant-xml/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index b2c5bff..87e742e 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -543,7 +543,7 @@ fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
                     [b'g', b't'] => '>',
                     [b'l', b't'] => '<',
                     [b'q', b'u', b'o', b't'] => '"',
-                    [b'#', b'x' | b'X', hex @ ..] if !hex.starts_with(b"+") => {
+                    [b'#', b'x', hex @ ..] if !hex.starts_with(b"+") => {
                         // Hexadecimal character reference e.g. "&#x007c;" -> '|'
                         str::from_utf8(hex)
                             .ok()
-- 
2.43.0


From 7096c857a70982d78d0cb1376c1f783b5212de69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 36/37] fix: refuse a key without its value in the xml
 attribute

---
 instant-xml-macros/src/meta.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/instant-xml-macros/src/meta.rs b/instant-xml-macros/src/meta.rs
index 1a01b73..ced55ab 100644
--- a/instant-xml-macros/src/meta.rs
+++ b/instant-xml-macros/src/meta.rs
@@ -387,6 +387,12 @@ fn list_items(list: &syn::MetaList, items: &mut Vec<(MetaItem, Span)>) {
             }
         };
     }
+
+    // A key must not be left without its value
+    match state {
+        MetaState::Start | MetaState::Comma => {}
+        state => panic!("invalid end state in xml attribute ({})", state.name()),
+    }
 }
 
 #[derive(Debug)]
-- 
2.43.0


From c54e4ce96713cf04fb2389fbf562c516c68e1fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:41 +0000
Subject: [PATCH 37/37] fix: qualify the names that derived FromXml code uses

---
 instant-xml-macros/src/de.rs | 71 ++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 3203761..469682c 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -92,20 +92,18 @@ fn deserialize_scalar_enum(
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
-                use ::instant_xml::Error;
-
                 if into.is_some() {
-                    return Err(Error::DuplicateValue(field));
+                    return Err(::instant_xml::Error::DuplicateValue(field));
                 }
 
                 let cow_str = match deserializer.take_str()? {
                     Some(val) => val,
-                    None => return Err(Error::MissingValue(#type_str)),
+                    None => return Err(::instant_xml::Error::MissingValue(#type_str)),
                 };
 
                 let value = match cow_str.as_ref() {
                     #variants
-                    _ => return Err(Error::UnexpectedValue(
+                    _ => return Err(::instant_xml::Error::UnexpectedValue(
                         format!("enum variant not found for '{}' in field {}", cow_str, field),
                     )),
                 };
@@ -194,20 +192,19 @@ fn deserialize_forward_enum(
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
-                use ::instant_xml::de::Node;
-                use ::instant_xml::{Accumulate, Error, FromXml};
+                use ::instant_xml::{Accumulate as _, FromXml};
 
                 if into.is_some() {
-                    return Err(Error::DuplicateValue(field));
+                    return Err(::instant_xml::Error::DuplicateValue(field));
                 }
 
                 let id = deserializer.parent();
                 #variants else {
-                    return Err(Error::UnexpectedTag(format!("{:?}", id)));
+                    return Err(::instant_xml::Error::UnexpectedTag(format!("{:?}", id)));
                 };
 
                 if let Some(_) = deserializer.next() {
-                    return Err(Error::UnexpectedState("unexpected node after wrapped enum variant"));
+                    return Err(::instant_xml::Error::UnexpectedState("unexpected node after wrapped enum variant"));
                 }
 
                 Ok(())
@@ -276,7 +273,7 @@ fn deserialize_struct(
     }
 
     if direct.is_empty() {
-        direct.extend(quote!(Node::Text(_) => {
+        direct.extend(quote!(::instant_xml::de::Node::Text(_) => {
             // no direct field, ignore
         }));
     }
@@ -320,11 +317,10 @@ fn deserialize_struct(
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
-                use ::instant_xml::de::Node;
-                use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
+                use ::instant_xml::{Accumulate as _, FromXml};
 
                 if into.is_some() {
-                    return Err(Error::DuplicateValue(field));
+                    return Err(::instant_xml::Error::DuplicateValue(field));
                 }
 
                 enum __Elements {
@@ -345,7 +341,7 @@ fn deserialize_struct(
                     };
 
                     match node {
-                        Node::Attribute(attr) => {
+                        ::instant_xml::de::Node::Attribute(attr) => {
                             let id = deserializer.attribute_id(&attr)?;
                             let field = #attributes_branches;
 
@@ -354,7 +350,7 @@ fn deserialize_struct(
                                 __Attributes::__Ignore => {}
                             }
                         }
-                        Node::Open(data) => {
+                        ::instant_xml::de::Node::Open(data) => {
                             let id = deserializer.element_id(&data)?;
                             let element = #elements_branches;
 
@@ -367,7 +363,7 @@ fn deserialize_struct(
                             }
                         }
                         #direct
-                        node => return Err(Error::UnexpectedNode(format!("{:?} in {}", node, #ident_str))),
+                        node => return Err(::instant_xml::Error::UnexpectedNode(format!("{:?} in {}", node, #ident_str))),
                     }
                 }
 
@@ -479,10 +475,10 @@ fn deserialize_inline_struct(
         } else {
             deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, Some(#field_id)) {
                 match <#field_ty as FromXml>::KIND {
-                    Kind::Element => {
+                    ::instant_xml::Kind::Element => {
                         <#field_ty as FromXml>::deserialize(&mut into.#field_name, #field_str, deserializer)?;
                     }
-                    Kind::Scalar => {
+                    ::instant_xml::Kind::Scalar => {
                         <#field_ty as FromXml>::deserialize(&mut into.#field_name, #field_str, deserializer)?;
                         deserializer.ignore()?;
                     }
@@ -515,8 +511,6 @@ fn deserialize_inline_struct(
                 _: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
-                use ::instant_xml::Kind;
-
                 let current = deserializer.parent();
                 #deserialize
 
@@ -599,10 +593,10 @@ fn named_field<'a>(
         tokens.branches.extend(match field_meta.attribute {
             // The name of an attribute depends only on the field, never on the field's type
             true => quote!(
-                if id == (Id { ns: #ns, name: #field_tag }) { __Attributes::#enum_name }
+                if id == (::instant_xml::Id { ns: #ns, name: #field_tag }) { __Attributes::#enum_name }
             ),
             false => quote!(
-                if <#no_lifetime_type as FromXml>::matches(id, Some(Id { ns: #ns, name: #field_tag })) {
+                if <#no_lifetime_type as FromXml>::matches(id, Some(::instant_xml::Id { ns: #ns, name: #field_tag })) {
                     __Elements::#enum_name
                 }
             ),
@@ -654,20 +648,20 @@ fn named_field<'a>(
             ));
         } else if field_meta.direct {
             direct.extend(quote!(
-                Node::Text(text) => {
+                ::instant_xml::de::Node::Text(text) => {
                     seen_direct = true;
-                    let mut nested = deserializer.for_node(Node::Text(text));
+                    let mut nested = deserializer.for_node(::instant_xml::de::Node::Text(text));
                     <#no_lifetime_type as FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
                 }
             ));
         } else {
             tokens.r#match.extend(quote!(
                 __Elements::#enum_name => match <#no_lifetime_type as FromXml>::KIND {
-                    Kind::Element => {
+                    ::instant_xml::Kind::Element => {
                         let mut nested = deserializer.nested(data);
                         <#no_lifetime_type as FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
                     }
-                    Kind::Scalar => {
+                    ::instant_xml::Kind::Scalar => {
                         let mut nested = deserializer.nested(data);
                         <#no_lifetime_type as FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
                         nested.ignore()?;
@@ -686,14 +680,14 @@ fn named_field<'a>(
         if let Some(with) = &deserialize_with {
             tokens.r#match.extend(quote!(
                 __Attributes::#enum_name => {
-                    let mut nested = deserializer.for_node(Node::AttributeValue(attr.value));
+                    let mut nested = deserializer.for_node(::instant_xml::de::Node::AttributeValue(attr.value));
                     #with(&mut #val_name, #field_str, &mut nested)?;
                 },
             ));
         } else {
             tokens.r#match.extend(quote!(
                 __Attributes::#enum_name => {
-                    let mut nested = deserializer.for_node(Node::AttributeValue(attr.value));
+                    let mut nested = deserializer.for_node(::instant_xml::de::Node::AttributeValue(attr.value));
                     let new = <#no_lifetime_type as FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
                 },
             ));
@@ -708,7 +702,7 @@ fn named_field<'a>(
         return_val.extend(quote!(
             #field_name: match #val_name.try_done(#field_str) {
                 Ok(value) => value,
-                Err(Error::MissingValue(_)) => {
+                Err(::instant_xml::Error::MissingValue(_)) => {
                     let mut acc = <#no_lifetime_type as FromXml>::Accumulator::default();
                     // The element is exhausted, so the field type sees no content. (A synthesized
                     // node would not be consumed, and instead leak into the parent element.)
@@ -790,11 +784,10 @@ fn deserialize_tuple_struct(
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
-                use ::instant_xml::de::Node;
-                use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
+                use ::instant_xml::{Accumulate as _, FromXml};
 
                 if into.is_some() {
-                    return Err(Error::DuplicateValue(field));
+                    return Err(::instant_xml::Error::DuplicateValue(field));
                 }
 
                 #declare_values
@@ -826,11 +819,11 @@ fn unnamed_field(
     let field_str = format!("{type_name}::{index}");
     declare_values.extend(quote!(
         let #name = match <#no_lifetime_type as FromXml>::KIND {
-            Kind::Element => match deserializer.next() {
-                Some(Ok(Node::Open(data))) => {
+            ::instant_xml::Kind::Element => match deserializer.next() {
+                Some(Ok(::instant_xml::de::Node::Open(data))) => {
                     let id = deserializer.element_id(&data)?;
                     if !<#no_lifetime_type as FromXml>::matches(id, None) {
-                        return Err(Error::UnexpectedTag(format!("{:?}", id)));
+                        return Err(::instant_xml::Error::UnexpectedTag(format!("{:?}", id)));
                     }
 
                     let mut nested = deserializer.nested(data);
@@ -839,11 +832,11 @@ fn unnamed_field(
                     nested.ignore()?;
                     value
                 }
-                Some(Ok(node)) => return Err(Error::UnexpectedNode(format!("{:?}", node))),
+                Some(Ok(node)) => return Err(::instant_xml::Error::UnexpectedNode(format!("{:?}", node))),
                 Some(Err(e)) => return Err(e),
-                None => return Err(Error::MissingValue(#field_str)),
+                None => return Err(::instant_xml::Error::MissingValue(#field_str)),
             }
-            Kind::Scalar => {
+            ::instant_xml::Kind::Scalar => {
                 let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
                 <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, deserializer)?;
                 value
-- 
2.43.0

