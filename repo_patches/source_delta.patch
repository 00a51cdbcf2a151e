From 64d333a5a5e616fbffafa666698364fdde7ce8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 01/28] fix: refuse a string or byte string whose padding is
 cut off instead of panicking

---
 serde-xdr/src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde-xdr/src/de.rs b/serde-xdr/src/de.rs
index 8f748f2..b4a8f71 100644
--- a/serde-xdr/src/de.rs
+++ b/serde-xdr/src/de.rs
@@ -88,7 +88,7 @@ impl<'de> Deserializer<'de> {
         let v = self.read(size)?;
         let v = str::from_utf8(v)?;
         if padding_size < 4 {
-            self.input = &self.input[padding_size..];
+            self.read(padding_size)?;
         }
         Ok(v)
     }
@@ -99,7 +99,7 @@ impl<'de> Deserializer<'de> {
 
         let v = self.read(size)?;
         if padding_size < 4 {
-            self.input = &self.input[padding_size..];
+            self.read(padding_size)?;
         }
         Ok(v)
     }
-- 
2.43.0


From f3233166aefe2351658edd092d3b916483fa25e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 02/28] fix: refuse 8- and 16-bit integers that are out of
 range instead of truncating them

---
 serde-xdr/src/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/serde-xdr/src/de.rs b/serde-xdr/src/de.rs
index b4a8f71..fd74a0c 100644
--- a/serde-xdr/src/de.rs
+++ b/serde-xdr/src/de.rs
@@ -126,14 +126,14 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_i8(self.read_i32()? as i8)
+        visitor.visit_i8(self.read_i32()?.try_into()?)
     }
 
     fn deserialize_i16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_i16(self.read_i32()? as i16)
+        visitor.visit_i16(self.read_i32()?.try_into()?)
     }
 
     fn deserialize_i32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -154,14 +154,14 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_u8(self.read_u32()? as u8)
+        visitor.visit_u8(self.read_u32()?.try_into()?)
     }
 
     fn deserialize_u16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_u16(self.read_u32()? as u16)
+        visitor.visit_u16(self.read_u32()?.try_into()?)
     }
 
     fn deserialize_u32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From a18ae41fa946ddbcef8d539841e046aed30e3c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 03/28] fix: do not allocate the claimed size of opaque data
 before reading it

---
 serde-xdr/src/opaque.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/serde-xdr/src/opaque.rs b/serde-xdr/src/opaque.rs
index b2bf25c..0106701 100644
--- a/serde-xdr/src/opaque.rs
+++ b/serde-xdr/src/opaque.rs
@@ -69,18 +69,14 @@ where
 {
     let size = seq.size_hint().unwrap();
 
-    let mut bytes = vec![0u8; size];
+    // The size is not trusted until the data is read.
+    let mut bytes = Vec::with_capacity(size.min(4096));
     let padded_len = size.div_ceil(4);
 
-    let mut idx = 0;
     for _ in 0..padded_len {
         if let Some(v) = seq.next_element::<u32>()? {
-            for b in v.to_be_bytes() {
-                if idx < size {
-                    bytes[idx] = b;
-                    idx += 1;
-                }
-            }
+            let len = (size - bytes.len()).min(4);
+            bytes.extend_from_slice(&v.to_be_bytes()[..len]);
         }
     }
 
-- 
2.43.0


From be0304a1696b3c8f87a27c08ea5343081d97e50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 04/28] fix: refuse lengths and counts that do not fit 32 bits
 instead of truncating them

---
 serde-xdr/src/ser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serde-xdr/src/ser.rs b/serde-xdr/src/ser.rs
index 81a5946..54818bf 100644
--- a/serde-xdr/src/ser.rs
+++ b/serde-xdr/src/ser.rs
@@ -89,7 +89,7 @@ impl ser::Serializer for &mut Serializer {
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok, Self::Error> {
         let size = v.len();
         let padding_size = 4 - size % 4;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         self.output.extend_from_slice(v);
         if padding_size < 4 {
             let mut padding = vec![0u8; padding_size];
@@ -155,7 +155,7 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         let size = len.ok_or(Error::NotSupported)?;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         Ok(self)
     }
 
@@ -184,7 +184,7 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         let size = len.ok_or(Error::NotSupported)?;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         Ok(self)
     }
 
-- 
2.43.0


From 611f588205bf8a4889d3d939642ede613223948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 05/28] fix: decode derived variants of ten or more items
 instead of panicking

---
 serde-xdr-derive/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/serde-xdr-derive/src/lib.rs b/serde-xdr-derive/src/lib.rs
index 360cc0c..99ff5c6 100644
--- a/serde-xdr-derive/src/lib.rs
+++ b/serde-xdr-derive/src/lib.rs
@@ -57,6 +57,8 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
         }
     }
 
+    // the index and the items
+    let max_len = 1 + max_fields_len(&ast);
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
             fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -105,7 +107,7 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                     }
                 }
 
-                deserializer.deserialize_tuple(10, XdrIndexerVisitor)
+                deserializer.deserialize_tuple(#max_len, XdrIndexerVisitor)
             }
         }
     };
@@ -183,6 +185,7 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
     }
 
     let value_ty = value_ty.unwrap();
+    let max_len = max_fields_len(&ast);
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
             fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
@@ -228,10 +231,18 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                     }
                 }
 
-                deserializer.deserialize_tuple(10, XdrUnionVisitor)
+                deserializer.deserialize_tuple(#max_len, XdrUnionVisitor)
             }
         }
     };
 
     serde_ast.into()
 }
+
+fn max_fields_len(ast: &ItemEnum) -> usize {
+    ast.variants
+        .iter()
+        .map(|variant| variant.fields.len())
+        .max()
+        .unwrap_or_default()
+}
-- 
2.43.0


From d46e20ec6f3c61b3428699ad7698e721d78f1dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 06/28] fix: end a keyword where the word ends, not at the next
 space

`void_t x` was refused, `char*p` declared a pointer to a type named char,
`int proc(int)`, `int*p` and `enum{` were refused, and `casex:` was taken
for `case x:`.
---
 rpcgen/src/parser.rs | 118 ++++++++++++++++---------------------------
 1 file changed, 43 insertions(+), 75 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index b178a94..591056b 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -8,7 +8,7 @@ use nom::{
         alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, multispace1,
         not_line_ending, oct_digit1, one_of,
     },
-    combinator::{map, opt, peek, recognize, verify},
+    combinator::{map, not, opt, recognize, verify},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -444,7 +444,7 @@ fn case_spec(input: &str) -> IResult<&str, CaseSpec> {
     map(
         (
             many1(delimited(
-                (comment0, tag("case"), comment0),
+                (comment0, word("case"), comment0),
                 value,
                 (comment0, tag(":"), comment0),
             )),
@@ -482,7 +482,7 @@ fn constant(input: &str) -> IResult<&str, Constant> {
 
 fn constant_def(input: &str) -> IResult<&str, Assign> {
     preceded(
-        (tag("const"), multispace1),
+        (word("const"), multispace1),
         terminated(assign, (comment0, tag(";"))),
     )
     .parse(input)
@@ -499,24 +499,24 @@ fn decimal_nonzero(input: &str) -> IResult<&str, Constant> {
 fn declaration(input: &str) -> IResult<&str, Declaration> {
     // 優先度順に並べる。
     alt((
-        map(tag("void"), |_| Declaration::void()),
+        map(word("void"), |_| Declaration::void()),
         map(
             (
-                preceded((tag("opaque"), multispace1), identifier),
+                preceded((word("opaque"), multispace1), identifier),
                 delimited(tag("["), value, tag("]")),
             ),
             |(i, v)| Declaration::opaque_fixed_array(i, v),
         ),
         map(
             (
-                preceded((tag("opaque"), multispace1), identifier),
+                preceded((word("opaque"), multispace1), identifier),
                 delimited(tag("<"), opt(value), tag(">")),
             ),
             |(i, v)| Declaration::opaque_variable_array(i, v),
         ),
         map(
             (
-                preceded((tag("string"), multispace1), identifier),
+                preceded((word("string"), multispace1), identifier),
                 delimited(tag("<"), opt(value), tag(">")),
             ),
             |(i, v)| Declaration::string(i, v),
@@ -573,7 +573,7 @@ fn enum_body(input: &str) -> IResult<&str, Vec<Assign>> {
 
 fn enum_type_spec(input: &str) -> IResult<&str, EnumTypeSpec> {
     map(
-        preceded((tag("enum"), multispace1), enum_body),
+        preceded((word("enum"), multispace1), enum_body),
         EnumTypeSpec::new,
     )
     .parse(input)
@@ -621,7 +621,7 @@ fn struct_body(input: &str) -> IResult<&str, Vec<Declaration>> {
 
 fn struct_type_spec(input: &str) -> IResult<&str, StructTypeSpec> {
     map(
-        preceded((tag("struct"), multispace1), struct_body),
+        preceded((word("struct"), multispace1), struct_body),
         StructTypeSpec::new,
     )
     .parse(input)
@@ -631,7 +631,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
     alt((
         map(
             delimited(
-                (tag("typedef"), multispace1),
+                (word("typedef"), multispace1),
                 declaration,
                 (comment0, tag(";")),
             ),
@@ -639,7 +639,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
         ),
         map(
             delimited(
-                (tag("enum"), multispace1),
+                (word("enum"), multispace1),
                 (terminated(identifier, comment0), enum_body),
                 (comment0, tag(";")),
             ),
@@ -647,7 +647,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
         ),
         map(
             delimited(
-                (tag("struct"), multispace1),
+                (word("struct"), multispace1),
                 (terminated(identifier, comment0), struct_body),
                 (comment0, tag(";")),
             ),
@@ -655,7 +655,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
         ),
         map(
             delimited(
-                (tag("union"), multispace1),
+                (word("union"), multispace1),
                 (terminated(identifier, comment0), union_body),
                 (comment0, tag(";")),
             ),
@@ -667,67 +667,29 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
 
 fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
     alt((
-        map(
-            (
-                tag("unsigned"),
-                multispace1,
-                terminated(tag("int"), peek(multispace1)),
-            ),
-            |_| TypeSpecifier::Int(false),
-        ),
-        map(terminated(tag("int"), peek(multispace1)), |_| {
-            TypeSpecifier::Int(true)
+        map((word("unsigned"), multispace1, word("int")), |_| {
+            TypeSpecifier::Int(false)
         }),
-        map(
-            (
-                tag("unsigned"),
-                multispace1,
-                terminated(tag("hyper"), peek(multispace1)),
-            ),
-            |_| TypeSpecifier::Hyper(false),
-        ),
-        map(terminated(tag("hyper"), peek(multispace1)), |_| {
-            TypeSpecifier::Hyper(true)
+        map(word("int"), |_| TypeSpecifier::Int(true)),
+        map((word("unsigned"), multispace1, word("hyper")), |_| {
+            TypeSpecifier::Hyper(false)
         }),
+        map(word("hyper"), |_| TypeSpecifier::Hyper(true)),
         // start (libvirt extenstion)
-        map(
-            (
-                tag("unsigned"),
-                multispace1,
-                terminated(tag("char"), peek(multispace1)),
-            ),
-            |_| TypeSpecifier::Char(false),
-        ),
-        map(terminated(tag("char"), peek(multispace1)), |_| {
-            TypeSpecifier::Char(true)
-        }),
-        map(
-            (
-                tag("unsigned"),
-                multispace1,
-                terminated(tag("short"), peek(multispace1)),
-            ),
-            |_| TypeSpecifier::Short(false),
-        ),
-        map(terminated(tag("short"), peek(multispace1)), |_| {
-            TypeSpecifier::Short(true)
+        map((word("unsigned"), multispace1, word("char")), |_| {
+            TypeSpecifier::Char(false)
         }),
-        map(terminated(tag("unsigned"), peek(multispace1)), |_| {
-            TypeSpecifier::Int(false)
+        map(word("char"), |_| TypeSpecifier::Char(true)),
+        map((word("unsigned"), multispace1, word("short")), |_| {
+            TypeSpecifier::Short(false)
         }),
+        map(word("short"), |_| TypeSpecifier::Short(true)),
+        map(word("unsigned"), |_| TypeSpecifier::Int(false)),
         // end (libvirt extenstion)
-        map(terminated(tag("float"), peek(multispace1)), |_| {
-            TypeSpecifier::Float
-        }),
-        map(terminated(tag("double"), peek(multispace1)), |_| {
-            TypeSpecifier::Double
-        }),
-        map(terminated(tag("quadruple"), peek(multispace1)), |_| {
-            TypeSpecifier::Quadruple
-        }),
-        map(terminated(tag("bool"), peek(multispace1)), |_| {
-            TypeSpecifier::Bool
-        }),
+        map(word("float"), |_| TypeSpecifier::Float),
+        map(word("double"), |_| TypeSpecifier::Double),
+        map(word("quadruple"), |_| TypeSpecifier::Quadruple),
+        map(word("bool"), |_| TypeSpecifier::Bool),
         map(enum_type_spec, TypeSpecifier::enum_type),
         map(struct_type_spec, TypeSpecifier::struct_type),
         map(union_type_spec, TypeSpecifier::union_type),
@@ -740,14 +702,14 @@ fn union_body(input: &str) -> IResult<&str, UnionBody> {
     map(
         (
             delimited(
-                (tag("switch"), comment0, tag("("), comment0),
+                (word("switch"), comment0, tag("("), comment0),
                 declaration,
                 (comment0, tag(")"), comment0, tag("{"), comment0),
             ),
             many1(terminated(case_spec, comment0)),
             terminated(
                 opt(delimited(
-                    (comment0, tag("default"), comment0, tag(":"), comment0),
+                    (comment0, word("default"), comment0, tag(":"), comment0),
                     declaration,
                     (comment0, tag(";")),
                 )),
@@ -761,7 +723,7 @@ fn union_body(input: &str) -> IResult<&str, UnionBody> {
 
 fn union_type_spec(input: &str) -> IResult<&str, UnionTypeSpec> {
     map(
-        preceded((tag("union"), multispace1), union_body),
+        preceded((word("union"), multispace1), union_body),
         UnionTypeSpec::new,
     )
     .parse(input)
@@ -778,7 +740,7 @@ fn value(input: &str) -> IResult<&str, Value> {
 fn program(input: &str) -> IResult<&str, Program> {
     map(
         (
-            preceded((tag("program"), multispace1), identifier),
+            preceded((word("program"), multispace1), identifier),
             delimited(
                 (multispace0, tag("{"), multispace0),
                 many1(version),
@@ -794,7 +756,7 @@ fn program(input: &str) -> IResult<&str, Program> {
 fn version(input: &str) -> IResult<&str, Version> {
     map(
         (
-            preceded((tag("version"), multispace1), identifier),
+            preceded((word("version"), multispace1), identifier),
             delimited(
                 (multispace0, tag("{"), multispace0),
                 many1(terminated(procedure, multispace0)),
@@ -811,13 +773,13 @@ fn procedure(input: &str) -> IResult<&str, Procedure> {
     map(
         (
             terminated(
-                alt((type_specifier, map(tag("void"), |_| TypeSpecifier::Void))),
+                alt((type_specifier, map(word("void"), |_| TypeSpecifier::Void))),
                 multispace1,
             ),
             identifier,
             delimited(
                 (multispace0, tag("("), multispace0),
-                alt((type_specifier, map(tag("void"), |_| TypeSpecifier::Void))),
+                alt((type_specifier, map(word("void"), |_| TypeSpecifier::Void))),
                 (multispace0, tag(")"), multispace0),
             ),
             delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
@@ -827,6 +789,12 @@ fn procedure(input: &str) -> IResult<&str, Procedure> {
     .parse(input)
 }
 
+fn word<'a>(
+    name: &'static str,
+) -> impl Parser<&'a str, Output = &'a str, Error = nom::error::Error<&'a str>> {
+    terminated(tag(name), not(alt((alphanumeric1, tag("_")))))
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 06cf5f66224a7e18124a27909be35fe6443d6ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 07/28] fix: allow white space and comments between any two
 tokens

They were refused inside brackets, before the bracket, after keywords
(comments) and everywhere in programs (comments).
---
 rpcgen/src/parser.rs | 90 +++++++++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 39 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 591056b..53c5035 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -5,8 +5,8 @@ use nom::{
     branch::alt,
     bytes::complete::{tag, take_until},
     character::complete::{
-        alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, multispace1,
-        not_line_ending, oct_digit1, one_of,
+        alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, not_line_ending,
+        oct_digit1, one_of,
     },
     combinator::{map, not, opt, recognize, verify},
     multi::{many0, many1, separated_list1},
@@ -482,7 +482,7 @@ fn constant(input: &str) -> IResult<&str, Constant> {
 
 fn constant_def(input: &str) -> IResult<&str, Assign> {
     preceded(
-        (word("const"), multispace1),
+        (word("const"), comment0),
         terminated(assign, (comment0, tag(";"))),
     )
     .parse(input)
@@ -502,50 +502,62 @@ fn declaration(input: &str) -> IResult<&str, Declaration> {
         map(word("void"), |_| Declaration::void()),
         map(
             (
-                preceded((word("opaque"), multispace1), identifier),
-                delimited(tag("["), value, tag("]")),
+                preceded((word("opaque"), comment0), identifier),
+                delimited((comment0, tag("["), comment0), value, (comment0, tag("]"))),
             ),
             |(i, v)| Declaration::opaque_fixed_array(i, v),
         ),
         map(
             (
-                preceded((word("opaque"), multispace1), identifier),
-                delimited(tag("<"), opt(value), tag(">")),
+                preceded((word("opaque"), comment0), identifier),
+                delimited(
+                    (comment0, tag("<"), comment0),
+                    opt(value),
+                    (comment0, tag(">")),
+                ),
             ),
             |(i, v)| Declaration::opaque_variable_array(i, v),
         ),
         map(
             (
-                preceded((word("string"), multispace1), identifier),
-                delimited(tag("<"), opt(value), tag(">")),
+                preceded((word("string"), comment0), identifier),
+                delimited(
+                    (comment0, tag("<"), comment0),
+                    opt(value),
+                    (comment0, tag(">")),
+                ),
             ),
             |(i, v)| Declaration::string(i, v),
         ),
         map(
             (
                 type_specifier,
-                preceded(multispace1, identifier),
-                delimited(tag("["), value, tag("]")),
+                preceded(comment0, identifier),
+                delimited((comment0, tag("["), comment0), value, (comment0, tag("]"))),
             ),
             |(t, i, v)| Declaration::fixed_array(t, i, v),
         ),
         map(
             (
                 type_specifier,
-                preceded(multispace1, identifier),
-                delimited(tag("<"), opt(value), tag(">")),
+                preceded(comment0, identifier),
+                delimited(
+                    (comment0, tag("<"), comment0),
+                    opt(value),
+                    (comment0, tag(">")),
+                ),
             ),
             |(t, i, v)| Declaration::variable_array(t, i, v),
         ),
         map(
             (
                 type_specifier,
-                preceded((multispace0, tag("*"), multispace0), identifier),
+                preceded((comment0, tag("*"), comment0), identifier),
             ),
             |(t, i)| Declaration::option_variable(t, i),
         ),
         map(
-            (type_specifier, preceded(multispace1, identifier)),
+            (type_specifier, preceded(comment0, identifier)),
             |(t, i)| Declaration::variable(t, i),
         ),
     ))
@@ -573,7 +585,7 @@ fn enum_body(input: &str) -> IResult<&str, Vec<Assign>> {
 
 fn enum_type_spec(input: &str) -> IResult<&str, EnumTypeSpec> {
     map(
-        preceded((word("enum"), multispace1), enum_body),
+        preceded((word("enum"), comment0), enum_body),
         EnumTypeSpec::new,
     )
     .parse(input)
@@ -621,7 +633,7 @@ fn struct_body(input: &str) -> IResult<&str, Vec<Declaration>> {
 
 fn struct_type_spec(input: &str) -> IResult<&str, StructTypeSpec> {
     map(
-        preceded((word("struct"), multispace1), struct_body),
+        preceded((word("struct"), comment0), struct_body),
         StructTypeSpec::new,
     )
     .parse(input)
@@ -631,7 +643,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
     alt((
         map(
             delimited(
-                (word("typedef"), multispace1),
+                (word("typedef"), comment0),
                 declaration,
                 (comment0, tag(";")),
             ),
@@ -639,7 +651,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
         ),
         map(
             delimited(
-                (word("enum"), multispace1),
+                (word("enum"), comment0),
                 (terminated(identifier, comment0), enum_body),
                 (comment0, tag(";")),
             ),
@@ -647,7 +659,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
         ),
         map(
             delimited(
-                (word("struct"), multispace1),
+                (word("struct"), comment0),
                 (terminated(identifier, comment0), struct_body),
                 (comment0, tag(";")),
             ),
@@ -655,7 +667,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
         ),
         map(
             delimited(
-                (word("union"), multispace1),
+                (word("union"), comment0),
                 (terminated(identifier, comment0), union_body),
                 (comment0, tag(";")),
             ),
@@ -667,20 +679,20 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
 
 fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
     alt((
-        map((word("unsigned"), multispace1, word("int")), |_| {
+        map((word("unsigned"), comment0, word("int")), |_| {
             TypeSpecifier::Int(false)
         }),
         map(word("int"), |_| TypeSpecifier::Int(true)),
-        map((word("unsigned"), multispace1, word("hyper")), |_| {
+        map((word("unsigned"), comment0, word("hyper")), |_| {
             TypeSpecifier::Hyper(false)
         }),
         map(word("hyper"), |_| TypeSpecifier::Hyper(true)),
         // start (libvirt extenstion)
-        map((word("unsigned"), multispace1, word("char")), |_| {
+        map((word("unsigned"), comment0, word("char")), |_| {
             TypeSpecifier::Char(false)
         }),
         map(word("char"), |_| TypeSpecifier::Char(true)),
-        map((word("unsigned"), multispace1, word("short")), |_| {
+        map((word("unsigned"), comment0, word("short")), |_| {
             TypeSpecifier::Short(false)
         }),
         map(word("short"), |_| TypeSpecifier::Short(true)),
@@ -723,7 +735,7 @@ fn union_body(input: &str) -> IResult<&str, UnionBody> {
 
 fn union_type_spec(input: &str) -> IResult<&str, UnionTypeSpec> {
     map(
-        preceded((word("union"), multispace1), union_body),
+        preceded((word("union"), comment0), union_body),
         UnionTypeSpec::new,
     )
     .parse(input)
@@ -740,13 +752,13 @@ fn value(input: &str) -> IResult<&str, Value> {
 fn program(input: &str) -> IResult<&str, Program> {
     map(
         (
-            preceded((word("program"), multispace1), identifier),
+            preceded((word("program"), comment0), identifier),
             delimited(
-                (multispace0, tag("{"), multispace0),
+                (comment0, tag("{"), comment0),
                 many1(version),
-                (multispace0, tag("}"), multispace0),
+                (comment0, tag("}"), comment0),
             ),
-            delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
+            delimited((tag("="), comment0), value, (comment0, tag(";"))),
         ),
         |(a, b, c)| Program::new(a, b, c),
     )
@@ -756,13 +768,13 @@ fn program(input: &str) -> IResult<&str, Program> {
 fn version(input: &str) -> IResult<&str, Version> {
     map(
         (
-            preceded((word("version"), multispace1), identifier),
+            preceded((word("version"), comment0), identifier),
             delimited(
-                (multispace0, tag("{"), multispace0),
-                many1(terminated(procedure, multispace0)),
-                (multispace0, tag("}"), multispace0),
+                (comment0, tag("{"), comment0),
+                many1(terminated(procedure, comment0)),
+                (comment0, tag("}"), comment0),
             ),
-            delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
+            delimited((tag("="), comment0), value, (comment0, tag(";"))),
         ),
         |(a, b, c)| Version::new(a, b, c),
     )
@@ -774,15 +786,15 @@ fn procedure(input: &str) -> IResult<&str, Procedure> {
         (
             terminated(
                 alt((type_specifier, map(word("void"), |_| TypeSpecifier::Void))),
-                multispace1,
+                comment0,
             ),
             identifier,
             delimited(
-                (multispace0, tag("("), multispace0),
+                (comment0, tag("("), comment0),
                 alt((type_specifier, map(word("void"), |_| TypeSpecifier::Void))),
-                (multispace0, tag(")"), multispace0),
+                (comment0, tag(")"), comment0),
             ),
-            delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
+            delimited((tag("="), comment0), value, (comment0, tag(";"))),
         ),
         |(a, b, c, d)| Procedure::new(a, b, c, d),
     )
-- 
2.43.0


From e42bdf1997296c813328e92958353ca266c00860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 08/28] fix: accept white space between the versions of a
 program

---
 rpcgen/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 53c5035..86dce12 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -755,7 +755,7 @@ fn program(input: &str) -> IResult<&str, Program> {
             preceded((word("program"), comment0), identifier),
             delimited(
                 (comment0, tag("{"), comment0),
-                many1(version),
+                many1(terminated(version, comment0)),
                 (comment0, tag("}"), comment0),
             ),
             delimited((tag("="), comment0), value, (comment0, tag(";"))),
-- 
2.43.0


From 2c8e04e8e8eb76690373fa1440fa1550323e61f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 09/28] fix: accept a blank file and a pass-through line that
 ends the file

---
 rpcgen/src/parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 86dce12..b86eb6c 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -8,7 +8,7 @@ use nom::{
         alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, not_line_ending,
         oct_digit1, one_of,
     },
-    combinator::{map, not, opt, recognize, verify},
+    combinator::{eof, map, not, opt, recognize, verify},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -467,7 +467,7 @@ fn comment0(input: &str) -> IResult<&str, Option<Vec<&str>>> {
 }
 
 fn comment_line(input: &str) -> IResult<&str, &str> {
-    delimited(tag("%"), not_line_ending, line_ending).parse(input)
+    delimited(tag("%"), not_line_ending, alt((line_ending, eof))).parse(input)
 }
 
 fn constant(input: &str) -> IResult<&str, Constant> {
@@ -619,7 +619,7 @@ fn octal(input: &str) -> IResult<&str, Constant> {
 }
 
 fn specification(input: &str) -> IResult<&str, Vec<Definition>> {
-    many0(delimited(comment0, definition, comment0)).parse(input)
+    preceded(comment0, many0(terminated(definition, comment0))).parse(input)
 }
 
 fn struct_body(input: &str) -> IResult<&str, Vec<Declaration>> {
-- 
2.43.0


From 63dfa392cadd3df5285adb4901a4d9376513f32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 10/28] fix: parse the type of a declaration once

Each of four alternatives parsed it again, so the time to parse inline
structures grew as 4^depth.
---
 rpcgen/src/parser.rs | 64 +++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index b86eb6c..dace20e 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -529,37 +529,7 @@ fn declaration(input: &str) -> IResult<&str, Declaration> {
             ),
             |(i, v)| Declaration::string(i, v),
         ),
-        map(
-            (
-                type_specifier,
-                preceded(comment0, identifier),
-                delimited((comment0, tag("["), comment0), value, (comment0, tag("]"))),
-            ),
-            |(t, i, v)| Declaration::fixed_array(t, i, v),
-        ),
-        map(
-            (
-                type_specifier,
-                preceded(comment0, identifier),
-                delimited(
-                    (comment0, tag("<"), comment0),
-                    opt(value),
-                    (comment0, tag(">")),
-                ),
-            ),
-            |(t, i, v)| Declaration::variable_array(t, i, v),
-        ),
-        map(
-            (
-                type_specifier,
-                preceded((comment0, tag("*"), comment0), identifier),
-            ),
-            |(t, i)| Declaration::option_variable(t, i),
-        ),
-        map(
-            (type_specifier, preceded(comment0, identifier)),
-            |(t, i)| Declaration::variable(t, i),
-        ),
+        typed_declaration,
     ))
     .parse(input)
 }
@@ -710,6 +680,38 @@ fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
     .parse(input)
 }
 
+fn typed_declaration(input: &str) -> IResult<&str, Declaration> {
+    // 型は一度だけ解析する。
+    let (input, t) = type_specifier(input)?;
+    alt((
+        map(
+            (
+                preceded(comment0, identifier),
+                delimited((comment0, tag("["), comment0), value, (comment0, tag("]"))),
+            ),
+            |(i, v)| Declaration::fixed_array(t.clone(), i, v),
+        ),
+        map(
+            (
+                preceded(comment0, identifier),
+                delimited(
+                    (comment0, tag("<"), comment0),
+                    opt(value),
+                    (comment0, tag(">")),
+                ),
+            ),
+            |(i, v)| Declaration::variable_array(t.clone(), i, v),
+        ),
+        map(preceded((comment0, tag("*"), comment0), identifier), |i| {
+            Declaration::option_variable(t.clone(), i)
+        }),
+        map(preceded(comment0, identifier), |i| {
+            Declaration::variable(t.clone(), i)
+        }),
+    ))
+    .parse(input)
+}
+
 fn union_body(input: &str) -> IResult<&str, UnionBody> {
     map(
         (
-- 
2.43.0


From 4c2a2d24877f7947c83f5738ebd8342ba22617e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 11/28] fix: refuse a void member instead of panicking

---
 rpcgen/src/gen_code.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index c518714..8ee5f1d 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -384,7 +384,7 @@ fn convert_struct_token(
 
     let struct_type = Some(TypeSpecifier::Identifier(name.to_string()));
     for declaration in declarations {
-        let mut field_name = declaration.name().unwrap().to_string();
+        let mut field_name = declaration.name().ok_or(Error::NotSupported)?.to_string();
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
 
         let derive = match opaque {
@@ -796,7 +796,7 @@ fn convert_primitive_token(
         } else {
             (quote! { u16 }, OpaqueType::None)
         }),
-        TypeSpecifier::Void => unimplemented!(),
+        TypeSpecifier::Void => Err(Error::NotSupported),
     }
 }
 
-- 
2.43.0


From 55d3f04db15f4a8dfcbe5889e3069127b9a3eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 12/28] fix: refuse other labels of a bool and definitions
 without a value

---
 rpcgen/src/gen_code.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 8ee5f1d..2169d4e 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -353,7 +353,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
         quote! { #[derive(Clone, Debug, Deserialize, PartialEq, Serialize)] }
     };
 
-    let default_value = default_value.unwrap();
+    let default_value = default_value.ok_or(Error::NotSupported)?;
     Ok(quote! {
         #derive
         #[repr(i32)]
@@ -503,6 +503,11 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             }
         }
         TypeSpecifier::Bool => {
+            let mut labels = body.specs.iter().flat_map(|s| &s.values);
+            if labels.any(|v| !v.is_true() && !v.is_false()) {
+                return Err(Error::NotSupported);
+            }
+
             let false_case = body
                 .specs
                 .iter()
@@ -679,7 +684,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
         quote! { #[derive(Clone, Debug, Deserialize, Serialize)] }
     };
 
-    let default_value = default_value.unwrap();
+    let default_value = default_value.ok_or(Error::NotSupported)?;
     Ok(quote! {
         #derive
         pub enum #name_ident {
-- 
2.43.0


From 9baba6f12218b727dbd7a3b2ae8bc1782f6d174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:03 +0000
Subject: [PATCH 13/28] fix: do not overflow after the largest enumeration
 value

---
 rpcgen/src/gen_code.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 2169d4e..4af6637 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -285,7 +285,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             default_value = Some(quote! { #item_ident });
         }
 
-        start = end + 1;
+        start = end.saturating_add(1);
     }
 
     let as_ref = if cxt.config.enum_impl_std_trait {
@@ -497,7 +497,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     });
                 }
 
-                sindex = eindex + 1;
+                sindex = eindex.saturating_add(1);
 
                 xdr_union_cond_type = Some(tmp_type);
             }
-- 
2.43.0


From f672425407ba4006f98e024b90f49fb6819c1f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 14/28] fix: refuse names that are defined by themselves

---
 rpcgen/src/gen_code.rs | 69 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 67 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 4af6637..4054da6 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -87,8 +87,72 @@ impl Context {
     where
         T: TryFrom<&'a Constant>,
     {
-        self.resolve_const_value::<T>(name)
-            .or_else(|_| self.resolve_enum_value::<T>(name))
+        if self.constants.iter().any(|(n, _)| n == name) {
+            self.resolve_const_value::<T>(name)
+        } else {
+            self.resolve_enum_value::<T>(name)
+        }
+    }
+
+    fn find_value(&self, name: &str) -> Option<&Value> {
+        let constant = self.constants.iter().find(|(n, _)| n == name);
+        constant.map(|(_, value)| value).or_else(|| {
+            self.typedefs.iter().find_map(|(_, typedef)| match typedef {
+                TypeDef::Enum(_, assigns) => assigns
+                    .iter()
+                    .find(|a| a.identifier == name)
+                    .map(|a| &a.value),
+                _ => None,
+            })
+        })
+    }
+
+    /// The type a typedef is made of.
+    fn find_alias(&self, name: &str) -> Option<&TypeSpecifier> {
+        match self.typedefs.iter().find(|(n, _)| n == name) {
+            Some((_, TypeDef::Declaration(declaration))) => match declaration {
+                Declaration::Variable(ty, _)
+                | Declaration::FixedArray(ty, _, _)
+                | Declaration::VariableArray(ty, _, _)
+                | Declaration::OptionVariable(ty, _) => Some(ty),
+                _ => None,
+            },
+            _ => None,
+        }
+    }
+
+    /// A name that is defined by itself has neither a value nor a type.
+    fn check_references(&self) -> Result<(), Error> {
+        let mut names: Vec<&str> = self.constants.iter().map(|(n, _)| n.as_str()).collect();
+        for (name, typedef) in &self.typedefs {
+            if let TypeDef::Enum(_, assigns) = typedef {
+                names.extend(assigns.iter().map(|a| a.identifier.as_str()));
+            }
+
+            let mut alias = name;
+            let mut steps = 0;
+            while let Some(TypeSpecifier::Identifier(next)) = self.find_alias(alias) {
+                alias = next;
+                steps += 1;
+                if steps > self.typedefs.len() {
+                    return Err(Error::NotFountIdentifier(name.to_string()));
+                }
+            }
+        }
+
+        for name in &names {
+            let mut value = self.find_value(name);
+            let mut steps = 0;
+            while let Some(Value::Identifier(next)) = value {
+                value = self.find_value(next);
+                steps += 1;
+                if steps > names.len() {
+                    return Err(Error::NotFountIdentifier(name.to_string()));
+                }
+            }
+        }
+
+        Ok(())
     }
 
     fn resolve_value<'a, T>(&'a self, value: &'a Value) -> Result<T, Error>
@@ -113,6 +177,7 @@ enum OpaqueType {
 pub fn gen_code(definitions: Vec<Definition>, config: &Config) -> Result<String, Error> {
     let mut cxt = Context::new(config);
     setup_context(&definitions, &mut cxt)?;
+    cxt.check_references()?;
 
     let constants = constants_token(&cxt)?;
     let types = types_token(&cxt)?;
-- 
2.43.0


From 8b2539ef55916227023198c20d8890975e74f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 15/28] fix: use the number a name stands for as length and as
 constant

---
 rpcgen/src/gen_code.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 4054da6..a199f24 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -250,9 +250,9 @@ fn constants_token(cxt: &Context) -> Result<Vec<TokenStream>, Error> {
 
     for (name, value) in &cxt.constants {
         let name_ident = format_ident!("{}", name);
-        let (value_token, ty) = match convert_value_token::<u32>(value, false) {
+        let (value_token, ty) = match convert_number_token::<u32>(value, cxt) {
             Ok(v) => Ok((v, quote! { u32 })),
-            Err(_) => match convert_value_token::<u64>(value, false) {
+            Err(_) => match convert_number_token::<u64>(value, cxt) {
                 Ok(v) => Ok((v, quote! { u64 })),
                 Err(e) => Err(e),
             },
@@ -788,6 +788,22 @@ where
     }
 }
 
+/// The number a name stands for, or the name itself if it is defined elsewhere.
+fn convert_number_token<'a, T>(value: &'a Value, cxt: &'a Context) -> Result<TokenStream, Error>
+where
+    T: TryFrom<&'a Constant> + ToTokens,
+{
+    match value {
+        Value::Identifier(i) if cxt.find_value(i).is_none() => {
+            convert_value_token::<T>(value, false)
+        }
+        _ => {
+            let v = cxt.resolve_value::<T>(value)?;
+            Ok(quote! { #v })
+        }
+    }
+}
+
 fn convert_type_token(
     declaration: &Declaration,
     cxt: &Context,
@@ -799,8 +815,8 @@ fn convert_type_token(
         }
         Declaration::FixedArray(type_specifier, _, value) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
-            let len = convert_value_token::<usize>(value, false)?;
-            Ok(Some((quote! { [#ty; #len] }, opaque)))
+            let len = convert_number_token::<usize>(value, cxt)?;
+            Ok(Some((quote! { [#ty; #len as usize] }, opaque)))
         }
         Declaration::VariableArray(type_specifier, _, _) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
@@ -815,7 +831,7 @@ fn convert_type_token(
             }
         }
         Declaration::OpaqueFixedArray(_, value) => {
-            let len = convert_value_token::<usize>(value, false)?;
+            let len = convert_number_token::<usize>(value, cxt)?;
             Ok(Some((quote! { [u8; #len as usize] }, OpaqueType::Fixed)))
         }
         Declaration::OpaqueVariableArray(_, _) => {
-- 
2.43.0


From 30d97fa4fa8166fcde585ca144fc0ba601a267e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 16/28] fix: encode opaque data as such in arrays, optional
 data and default arms

---
 rpcgen/src/gen_code.rs  | 39 +++++++++++++++++++++++----------------
 serde-xdr/src/opaque.rs | 38 +++++++++++++++++++++++++++++++++++---
 2 files changed, 58 insertions(+), 19 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index a199f24..2449bfb 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -651,7 +651,8 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     }
 
     if let Some(default) = &body.default {
-        if let Some((v_ty, _)) = convert_type_token(default, cxt)? {
+        if let Some((v_ty, opaque)) = convert_type_token(default, cxt)? {
+            let v_ty = wrap_opaque_token(v_ty, opaque);
             if cxt.config.union_impl_union {
                 specs.push(quote! {
                     Default(#xdr_union_cond_type, #v_ty)
@@ -814,21 +815,13 @@ fn convert_type_token(
             Ok(Some((ty, opaque)))
         }
         Declaration::FixedArray(type_specifier, _, value) => {
-            let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
+            let ty = convert_element_token(type_specifier, cxt)?;
             let len = convert_number_token::<usize>(value, cxt)?;
-            Ok(Some((quote! { [#ty; #len as usize] }, opaque)))
+            Ok(Some((quote! { [#ty; #len as usize] }, OpaqueType::None)))
         }
         Declaration::VariableArray(type_specifier, _, _) => {
-            let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
-            if opaque == OpaqueType::Variable {
-                Ok(Some((
-                    quote! { Vec<serde_xdr::opaque::VariableArray> },
-                    OpaqueType::None,
-                )))
-            } else {
-                // TODO: Add inner fixed opaque array support.
-                Ok(Some((quote! { Vec<#ty> }, opaque)))
-            }
+            let ty = convert_element_token(type_specifier, cxt)?;
+            Ok(Some((quote! { Vec<#ty> }, OpaqueType::None)))
         }
         Declaration::OpaqueFixedArray(_, value) => {
             let len = convert_number_token::<usize>(value, cxt)?;
@@ -839,13 +832,27 @@ fn convert_type_token(
         }
         Declaration::String(_, _) => Ok(Some((quote! { String }, OpaqueType::None))),
         Declaration::OptionVariable(type_specifier, _) => {
-            let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
-            Ok(Some((quote! { Option<#ty> }, opaque)))
+            let ty = convert_element_token(type_specifier, cxt)?;
+            Ok(Some((quote! { Option<#ty> }, OpaqueType::None)))
         }
         Declaration::Void => Ok(None),
     }
 }
 
+/// A type in a place where no serde attribute applies to it.
+fn convert_element_token(specifier: &TypeSpecifier, cxt: &Context) -> Result<TokenStream, Error> {
+    let (ty, opaque) = convert_primitive_token(specifier, cxt)?;
+    Ok(wrap_opaque_token(ty, opaque))
+}
+
+fn wrap_opaque_token(ty: TokenStream, opaque: OpaqueType) -> TokenStream {
+    match opaque {
+        OpaqueType::None => ty,
+        OpaqueType::Fixed => quote! { serde_xdr::opaque::FixedArray<#ty> },
+        OpaqueType::Variable => quote! { serde_xdr::opaque::VariableArray },
+    }
+}
+
 fn convert_primitive_token(
     specifier: &TypeSpecifier,
     cxt: &Context,
@@ -918,7 +925,7 @@ fn convert_case_token(
     if let Some((mut v_ty, opaque)) = decl {
         let derive = if opaque != OpaqueType::None && !cxt.config.union_complement_index() {
             // XdrIndexer を使用する場合は serde 属性が使用できないのでラッパオブジェクトを使用する。
-            v_ty = quote! { serde_xdr::opaque::VariableArray };
+            v_ty = wrap_opaque_token(v_ty, opaque);
             quote! {}
         } else {
             match opaque {
diff --git a/serde-xdr/src/opaque.rs b/serde-xdr/src/opaque.rs
index 0106701..8f06a86 100644
--- a/serde-xdr/src/opaque.rs
+++ b/serde-xdr/src/opaque.rs
@@ -1,4 +1,5 @@
-use serde::de::{SeqAccess, Visitor};
+use serde::de::{Deserializer, SeqAccess, Visitor};
+use serde::ser::Serializer;
 use serde::{Deserialize, Serialize};
 use std::fmt;
 use std::marker::PhantomData;
@@ -9,6 +10,37 @@ pub struct VariableArray {
     pub data: Vec<u8>,
 }
 
+/// Fixed-length opaque data where no serde attribute can be placed (`T` is `[u8; N]`).
+#[derive(Clone, Debug, PartialEq)]
+pub struct FixedArray<T> {
+    pub data: T,
+}
+
+impl<const N: usize> Default for FixedArray<[u8; N]> {
+    fn default() -> Self {
+        FixedArray { data: [0; N] }
+    }
+}
+
+impl<const N: usize> Serialize for FixedArray<[u8; N]> {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        fixed::serialize(&self.data, serializer)
+    }
+}
+
+impl<'de, const N: usize> Deserialize<'de> for FixedArray<[u8; N]> {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        let data = fixed::deserialize(deserializer)?;
+        Ok(FixedArray { data })
+    }
+}
+
 struct OpaqueVisitor<T> {
     marker: PhantomData<T>,
 }
@@ -85,11 +117,11 @@ where
 
 pub mod fixed {
     use serde::de::Deserializer;
-    use serde::ser::{Serialize, SerializeTuple, Serializer};
+    use serde::ser::{SerializeTuple, Serializer};
 
     pub fn serialize<T, S>(value: &T, serializer: S) -> Result<S::Ok, S::Error>
     where
-        T: Serialize + AsRef<[u8]>,
+        T: AsRef<[u8]>,
         S: Serializer,
     {
         let mut buf = value.as_ref().to_vec();
-- 
2.43.0


From 2bf7ff08604ba88b673864eb44acec3a5374a545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 17/28] fix: generate code that compiles for opaque data of
 more than 32 bytes

---
 rpcgen/src/gen_code.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 2449bfb..546d2de 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -817,6 +817,9 @@ fn convert_type_token(
         Declaration::FixedArray(type_specifier, _, value) => {
             let ty = convert_element_token(type_specifier, cxt)?;
             let len = convert_number_token::<usize>(value, cxt)?;
+            if is_long_array(value, cxt) {
+                return Err(Error::NotSupported);
+            }
             Ok(Some((quote! { [#ty; #len as usize] }, OpaqueType::None)))
         }
         Declaration::VariableArray(type_specifier, _, _) => {
@@ -825,7 +828,12 @@ fn convert_type_token(
         }
         Declaration::OpaqueFixedArray(_, value) => {
             let len = convert_number_token::<usize>(value, cxt)?;
-            Ok(Some((quote! { [u8; #len as usize] }, OpaqueType::Fixed)))
+            let ty = quote! { [u8; #len as usize] };
+            if is_long_array(value, cxt) {
+                let ty = wrap_opaque_token(ty, OpaqueType::Fixed);
+                return Ok(Some((ty, OpaqueType::None)));
+            }
+            Ok(Some((ty, OpaqueType::Fixed)))
         }
         Declaration::OpaqueVariableArray(_, _) => {
             Ok(Some((quote! { Vec<u8> }, OpaqueType::Variable)))
@@ -839,6 +847,11 @@ fn convert_type_token(
     }
 }
 
+/// Neither `Default` nor serde supports longer arrays.
+fn is_long_array(len: &Value, cxt: &Context) -> bool {
+    cxt.resolve_value::<usize>(len).is_ok_and(|n| n > 32)
+}
+
 /// A type in a place where no serde attribute applies to it.
 fn convert_element_token(specifier: &TypeSpecifier, cxt: &Context) -> Result<TokenStream, Error> {
     let (ty, opaque) = convert_primitive_token(specifier, cxt)?;
-- 
2.43.0


From 60e40c1e72000a0dccb76a62d601c092a6cf7115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:23 +0000
Subject: [PATCH 18/28] fix: encode enumerations by value where completing
 cannot

---
 rpcgen/src/gen_code.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 546d2de..6b517fe 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -26,6 +26,9 @@ impl Config {
     }
 }
 
+/// Larger values are not reached by completing the values below them.
+const MAX_COMPLEMENT_INDEX: i32 = 65536;
+
 struct Context {
     config: Config,
     constants: Vec<(String, Value)>,
@@ -317,9 +320,16 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
     let mut xdr_indexer_name_by_index = vec![];
     let mut default_value = None;
 
+    // 補完できない場合は値でシリアライズする。
+    let first = indexed.first().map_or(0, |i| i.0);
+    let last = indexed.last().map_or(0, |i| i.0);
+    let complementable = first >= 0 && last <= MAX_COMPLEMENT_INDEX;
+    let complement = cxt.config.enum_complement_index() && complementable;
+    let by_value = !complement && !cxt.config.enum_impl_indexer;
+
     let mut start: i32 = 0;
     for (end, assign) in indexed {
-        if cxt.config.enum_complement_index() {
+        if complement {
             for index in start..end {
                 // enum は index でシリアライズするため存在しない値は補完する。
                 let reserved = format_ident!("_Reserved{}", index.to_string());
@@ -367,8 +377,14 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
         quote! {}
     };
 
-    let try_from = if cxt.config.enum_impl_std_trait {
+    let try_from = if cxt.config.enum_impl_std_trait || by_value {
         quote! {
+            impl From<#name_ident> for i32 {
+                fn from(v: #name_ident) -> i32 {
+                    v as i32
+                }
+            }
+
             impl TryFrom<i32> for #name_ident {
                 type Error = serde_xdr::error::Error;
 
@@ -414,6 +430,11 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
 
     let derive = if cxt.config.enum_impl_indexer {
         quote! { #[derive(Clone, Debug, PartialEq, XdrIndexer)] }
+    } else if by_value {
+        quote! {
+            #[derive(Clone, Debug, Deserialize, PartialEq, Serialize)]
+            #[serde(try_from = "i32", into = "i32")]
+        }
     } else {
         quote! { #[derive(Clone, Debug, Deserialize, PartialEq, Serialize)] }
     };
@@ -457,6 +478,7 @@ fn convert_struct_token(
             OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
             _ => {
                 if cxt.config.enum_impl_std_trait
+                    && matches!(declaration, Declaration::Variable(_, _))
                     && cxt.is_enum_type(declaration.type_specifier().unwrap())
                 {
                     quote! { #[serde(with = "serde_xdr::primitive::signed32")] }
-- 
2.43.0


From 94d2cba94ee12a2e5cb444167e1efb6a82128301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 19/28] fix: refuse to complete a union up to a huge
 discriminant

---
 rpcgen/src/gen_code.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 6b517fe..506bd26 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -543,6 +543,10 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             let mut sindex: u32 = 0;
             for (eindex, decl, value_token) in values {
                 if cxt.config.union_complement_index() {
+                    if eindex > MAX_COMPLEMENT_INDEX as u32 {
+                        return Err(Error::NotSupported);
+                    }
+
                     for index in sindex..eindex {
                         // enum は index でシリアライズするため存在しない値は補完する。
                         let reserved = format_ident!("_Reserved{}", index.to_string());
-- 
2.43.0


From ab377e167c8994d72ed76dc4965b5f740ea0f490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 20/28] fix: escape every name that is or becomes a keyword

---
 rpcgen/src/gen_code.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 506bd26..8ed2709 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -252,7 +252,7 @@ fn constants_token(cxt: &Context) -> Result<Vec<TokenStream>, Error> {
     let mut results = vec![];
 
     for (name, value) in &cxt.constants {
-        let name_ident = format_ident!("{}", name);
+        let name_ident = safe_ident(name.to_string());
         let (value_token, ty) = match convert_number_token::<u32>(value, cxt) {
             Ok(v) => Ok((v, quote! { u32 })),
             Err(_) => match convert_number_token::<u64>(value, cxt) {
@@ -470,7 +470,7 @@ fn convert_struct_token(
 
     let struct_type = Some(TypeSpecifier::Identifier(name.to_string()));
     for declaration in declarations {
-        let mut field_name = declaration.name().ok_or(Error::NotSupported)?.to_string();
+        let field_name = declaration.name().ok_or(Error::NotSupported)?;
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
 
         let derive = match opaque {
@@ -488,11 +488,7 @@ fn convert_struct_token(
             }
         };
 
-        if keyword::rust_reserved(&field_name) {
-            field_name = format!("r#{field_name}");
-        }
-
-        let field_name_ident = snake_case_ident(&field_name);
+        let field_name_ident = snake_case_ident(field_name);
 
         if struct_type == declaration.type_specifier() {
             // TODO: Add nested structure support.
@@ -808,7 +804,7 @@ where
             let v = if cnv {
                 upper_camel_case_ident(i)
             } else {
-                format_ident!("{}", i)
+                safe_ident(i.to_string())
             };
             Ok(quote! { #v })
         }
@@ -1049,7 +1045,19 @@ fn upper_camel_case(value: &str) -> String {
 }
 
 fn upper_camel_case_ident(value: &str) -> Ident {
-    format_ident!("{}", upper_camel_case(value))
+    safe_ident(upper_camel_case(value))
+}
+
+/// An identifier that is not a keyword.
+fn safe_ident(value: String) -> Ident {
+    match value.as_str() {
+        // These can not be raw identifiers.
+        "self" | "Self" | "super" | "crate" => format_ident!("{}_", value),
+        "" | "_" => format_ident!("__"),
+        v if !v.starts_with(|c: char| c.is_alphabetic() || c == '_') => format_ident!("_{}", value),
+        v if keyword::rust_reserved(v) => format_ident!("r#{}", value),
+        _ => format_ident!("{}", value),
+    }
 }
 
 fn capitalize(value: &str) -> String {
@@ -1102,7 +1110,7 @@ fn snake_case(value: &str) -> String {
 }
 
 fn snake_case_ident(value: &str) -> Ident {
-    format_ident!("{}", snake_case(value))
+    safe_ident(snake_case(value))
 }
 
 fn with_underscore(value: &str) -> String {
-- 
2.43.0


From 2485dd51d259412046d22fc7d7e4a67ab0ce5d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:54 +0000
Subject: [PATCH 21/28] fix: accept a typedef as type of a discriminant

---
 rpcgen/src/gen_code.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 8ed2709..d5fc359 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -124,6 +124,18 @@ impl Context {
         }
     }
 
+    /// The type that a chain of plain typedefs ends with.
+    fn resolve_alias<'a>(&'a self, mut ty: &'a TypeSpecifier) -> &'a TypeSpecifier {
+        while let TypeSpecifier::Identifier(name) = ty {
+            match self.typedefs.iter().find(|(n, _)| n == name) {
+                Some((_, TypeDef::Declaration(Declaration::Variable(next, _)))) => ty = next,
+                _ => break,
+            }
+        }
+
+        ty
+    }
+
     /// A name that is defined by itself has neither a value nor a type.
     fn check_references(&self) -> Result<(), Error> {
         let mut names: Vec<&str> = self.constants.iter().map(|(n, _)| n.as_str()).collect();
@@ -520,7 +532,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     let name_ident = upper_camel_case_ident(name);
 
     let cond_type = match &body.cond {
-        Declaration::Variable(cond_type, _) => Ok(cond_type),
+        Declaration::Variable(cond_type, _) => Ok(cxt.resolve_alias(cond_type)),
         _ => Err(Error::NotSupported),
     }?;
 
-- 
2.43.0


From ac10601ab8bae656133a7f55143b697ffd34b43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 22/28] fix: give arms with a numeric label a name

---
 rpcgen/src/gen_code.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index d5fc359..2d2b8c4 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -955,7 +955,13 @@ fn convert_case_token(
     ),
     Error,
 > {
-    let value = convert_value_token::<u32>(value, true)?;
+    let value = match value {
+        Value::Constant(c) => {
+            let ident = format_ident!("Case{}", c.value::<u32>()?);
+            quote! { #ident }
+        }
+        _ => convert_value_token::<u32>(value, true)?,
+    };
     let cond_type = match convert_primitive_token(cond_type_spec, cxt) {
         Ok((ty, _)) => ty,
         _ => {
-- 
2.43.0


From d443816f81e07c9adc79148463f07bd8274da730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 23/28] fix: match discriminants by values of their type

---
 rpcgen/src/gen_code.rs | 80 ++++++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 23 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 2d2b8c4..f2a95eb 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -3,7 +3,7 @@ use crate::keyword;
 use crate::parser::{
     Assign, Constant, Declaration, Definition, TypeDef, TypeSpecifier, UnionBody, Value,
 };
-use proc_macro2::{Ident, TokenStream};
+use proc_macro2::{Ident, Literal, TokenStream};
 use quote::{ToTokens, format_ident, quote};
 use std::convert::TryFrom;
 
@@ -564,8 +564,17 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     }
                 }
 
+                if cond_type != &TypeSpecifier::Int(false) && i32::try_from(eindex).is_err() {
+                    return Err(Error::NotSupported);
+                }
+
+                let disc = if cxt.config.union_impl_union {
+                    convert_discriminant_token(cond_type, eindex, cxt)?
+                } else {
+                    quote! {}
+                };
                 let (variant, variant_arm, value, default, tmp_type) =
-                    convert_case_token(value_token, &decl, cond_type, cxt)?;
+                    convert_case_token(value_token, &decl, cond_type, &disc, cxt)?;
                 specs.push(value);
                 if default_value.is_none() {
                     default_value = Some(default);
@@ -580,21 +589,9 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     #name_ident::#variant_arm => #index
                 });
 
-                if cxt.is_enum_type(cond_type.clone()) {
-                    if let TypeSpecifier::Identifier(cond_type) = cond_type {
-                        let cond_type_ident = upper_camel_case_ident(cond_type);
-                        if let Value::Identifier(value) = value_token {
-                            let value_ident = upper_camel_case_ident(value);
-                            xdr_union_name_by_value.push(quote! {
-                                #cond_type_ident::#value_ident => Ok(stringify!(#variant))
-                            });
-                        }
-                    }
-                } else {
-                    xdr_union_name_by_value.push(quote! {
-                        #eindex => Ok(stringify!(#variant))
-                    });
-                }
+                xdr_union_name_by_value.push(quote! {
+                    #disc => Ok(stringify!(#variant))
+                });
 
                 sindex = eindex.saturating_add(1);
 
@@ -615,8 +612,13 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 Some(case) => {
                     let value = case.values.iter().find(|v| v.is_false()).unwrap();
 
-                    let (variant, variant_arm, value, default, _) =
-                        convert_case_token(value, &case.declaration, cond_type, cxt)?;
+                    let (variant, variant_arm, value, default, _) = convert_case_token(
+                        value,
+                        &case.declaration,
+                        cond_type,
+                        &quote! { false },
+                        cxt,
+                    )?;
                     specs.push(value);
                     if default_value.is_none() {
                         default_value = Some(default);
@@ -651,8 +653,13 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 Some(case) => {
                     let value = case.values.iter().find(|v| v.is_true()).unwrap();
 
-                    let (variant, variant_arm, value, default, _) =
-                        convert_case_token(value, &case.declaration, cond_type, cxt)?;
+                    let (variant, variant_arm, value, default, _) = convert_case_token(
+                        value,
+                        &case.declaration,
+                        cond_type,
+                        &quote! { true },
+                        cxt,
+                    )?;
                     specs.push(value);
                     if default_value.is_none() {
                         default_value = Some(default);
@@ -940,10 +947,37 @@ fn convert_primitive_token(
     }
 }
 
+/// A discriminant as a value (and pattern) of its type.
+fn convert_discriminant_token(
+    cond_type: &TypeSpecifier,
+    index: u32,
+    cxt: &Context,
+) -> Result<TokenStream, Error> {
+    if let TypeSpecifier::Identifier(name) = cond_type {
+        let typedef = cxt.typedefs.iter().find(|(n, _)| n == name);
+        if let Some((_, TypeDef::Enum(_, assigns))) = typedef {
+            let assign = assigns
+                .iter()
+                .find(|a| {
+                    let value = cxt.resolve_value::<i32>(&a.value);
+                    value.is_ok_and(|v| u32::try_from(v) == Ok(index))
+                })
+                .ok_or_else(|| Error::NotFountIdentifier(format!("{name} {index}")))?;
+            let cond_type_ident = upper_camel_case_ident(name);
+            let value_ident = upper_camel_case_ident(&assign.identifier);
+            return Ok(quote! { #cond_type_ident::#value_ident });
+        }
+    }
+
+    let literal = Literal::u32_unsuffixed(index);
+    Ok(quote! { #literal })
+}
+
 fn convert_case_token(
     value: &Value,
     declaration: &Declaration,
     cond_type_spec: &TypeSpecifier,
+    disc: &TokenStream,
     cxt: &Context,
 ) -> Result<
     (
@@ -1001,7 +1035,7 @@ fn convert_case_token(
         };
 
         let default_token = if cxt.config.union_impl_union {
-            quote! { #value(Default::default(), Default::default()) }
+            quote! { #value(#disc, Default::default()) }
         } else {
             quote! { #value(Default::default()) }
         };
@@ -1015,7 +1049,7 @@ fn convert_case_token(
         ))
     } else if cxt.config.union_impl_union {
         let value_token = quote! { #value(#cond_type) };
-        let default_token = quote! { #value(Default::default()) };
+        let default_token = quote! { #value(#disc) };
         Ok((value.clone(), value, value_token, default_token, cond_type))
     } else {
         let value_token = quote! { #value };
-- 
2.43.0


From 4e58b4b477ba5be3174159993a7050103043a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:03 +0000
Subject: [PATCH 24/28] fix: cover both discriminants of a bool union

---
 rpcgen/src/gen_code.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index f2a95eb..d3e1be1 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -759,13 +759,14 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     };
 
     let xdr_union = if cxt.config.union_impl_union {
-        let xdr_union_name_by_value_default_arm = if cond_type == &TypeSpecifier::Bool {
-            quote! {}
-        } else if body.default.is_some() {
-            quote! { _ => Ok(stringify!(Default)), }
-        } else {
-            quote! { _ => Err(::serde_xdr::error::Error::Convert), }
-        };
+        let xdr_union_name_by_value_default_arm =
+            if cond_type == &TypeSpecifier::Bool && xdr_union_name_by_value.len() == 2 {
+                quote! {}
+            } else if body.default.is_some() {
+                quote! { _ => Ok(stringify!(Default)), }
+            } else {
+                quote! { _ => Err(::serde_xdr::error::Error::Convert), }
+            };
 
         quote! {
             impl XdrUnion<#xdr_union_cond_type> for #name_ident {
-- 
2.43.0


From 00584c36f3607159370cd52045da24f68e50ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:18 +0000
Subject: [PATCH 25/28] fix: use a case, not the default arm, as default value
 of a union

---
 rpcgen/src/gen_code.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index d3e1be1..bbdc509 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -699,26 +699,27 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     Default(#xdr_union_cond_type, #v_ty)
                 });
 
-                default_value = Some(quote! { Default(Default::default(), Default::default()) });
+                default_value
+                    .get_or_insert(quote! { Default(Default::default(), Default::default()) });
             } else {
                 specs.push(quote! {
                     Default(#v_ty)
                 });
 
-                default_value = Some(quote! { Default(Default::default()) });
+                default_value.get_or_insert(quote! { Default(Default::default()) });
             }
         } else if cxt.config.union_impl_union {
             specs.push(quote! {
                 Default(#xdr_union_cond_type)
             });
 
-            default_value = Some(quote! { Default(Default::default()) });
+            default_value.get_or_insert(quote! { Default(Default::default()) });
         } else {
             specs.push(quote! {
                 Default
             });
 
-            default_value = Some(quote! { Default });
+            default_value.get_or_insert(quote! { Default });
         }
     }
 
-- 
2.43.0


From 127c1858b5ddc997cceeef32c0ceaf4ddfdf21a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 26/28] fix: box every member that contains its own type

---
 rpcgen/src/gen_code.rs | 53 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index bbdc509..919e9f3 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -5,6 +5,7 @@ use crate::parser::{
 };
 use proc_macro2::{Ident, Literal, TokenStream};
 use quote::{ToTokens, format_ident, quote};
+use std::collections::HashSet;
 use std::convert::TryFrom;
 
 #[derive(Clone, Default)]
@@ -136,6 +137,41 @@ impl Context {
         ty
     }
 
+    /// Whether a declared value holds a value of the named type, other than behind a `Vec`.
+    pub fn contains(&self, declaration: &Declaration, name: &str) -> bool {
+        let mut seen = HashSet::new();
+        let mut rest = vec![declaration];
+        while let Some(declaration) = rest.pop() {
+            let (Declaration::Variable(ty, _)
+            | Declaration::FixedArray(ty, _, _)
+            | Declaration::OptionVariable(ty, _)) = declaration
+            else {
+                continue;
+            };
+            let TypeSpecifier::Identifier(id) = ty else {
+                continue;
+            };
+            if id == name {
+                return true;
+            }
+            if !seen.insert(id) {
+                continue;
+            }
+
+            match self.typedefs.iter().find(|(n, _)| n == id) {
+                Some((_, TypeDef::Declaration(declaration))) => rest.push(declaration),
+                Some((_, TypeDef::Struct(_, declarations))) => rest.extend(declarations),
+                Some((_, TypeDef::Union(_, body))) => {
+                    rest.extend(body.specs.iter().map(|s| &s.declaration));
+                    rest.extend(&body.default);
+                }
+                _ => {}
+            }
+        }
+
+        false
+    }
+
     /// A name that is defined by itself has neither a value nor a type.
     fn check_references(&self) -> Result<(), Error> {
         let mut names: Vec<&str> = self.constants.iter().map(|(n, _)| n.as_str()).collect();
@@ -502,8 +538,7 @@ fn convert_struct_token(
 
         let field_name_ident = snake_case_ident(field_name);
 
-        if struct_type == declaration.type_specifier() {
-            // TODO: Add nested structure support.
+        if struct_type == declaration.type_specifier() || cxt.contains(declaration, name) {
             ty = quote! { Box<#ty> };
         }
 
@@ -574,7 +609,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     quote! {}
                 };
                 let (variant, variant_arm, value, default, tmp_type) =
-                    convert_case_token(value_token, &decl, cond_type, &disc, cxt)?;
+                    convert_case_token(name, value_token, &decl, cond_type, &disc, cxt)?;
                 specs.push(value);
                 if default_value.is_none() {
                     default_value = Some(default);
@@ -613,6 +648,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     let value = case.values.iter().find(|v| v.is_false()).unwrap();
 
                     let (variant, variant_arm, value, default, _) = convert_case_token(
+                        name,
                         value,
                         &case.declaration,
                         cond_type,
@@ -654,6 +690,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     let value = case.values.iter().find(|v| v.is_true()).unwrap();
 
                     let (variant, variant_arm, value, default, _) = convert_case_token(
+                        name,
                         value,
                         &case.declaration,
                         cond_type,
@@ -693,7 +730,10 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
 
     if let Some(default) = &body.default {
         if let Some((v_ty, opaque)) = convert_type_token(default, cxt)? {
-            let v_ty = wrap_opaque_token(v_ty, opaque);
+            let mut v_ty = wrap_opaque_token(v_ty, opaque);
+            if cxt.contains(default, name) {
+                v_ty = quote! { Box<#v_ty> };
+            }
             if cxt.config.union_impl_union {
                 specs.push(quote! {
                     Default(#xdr_union_cond_type, #v_ty)
@@ -976,6 +1016,7 @@ fn convert_discriminant_token(
 }
 
 fn convert_case_token(
+    name: &str,
     value: &Value,
     declaration: &Declaration,
     cond_type_spec: &TypeSpecifier,
@@ -1012,6 +1053,10 @@ fn convert_case_token(
 
     let decl = convert_type_token(declaration, cxt)?;
     if let Some((mut v_ty, opaque)) = decl {
+        if cxt.contains(declaration, name) {
+            v_ty = quote! { Box<#v_ty> };
+        }
+
         let derive = if opaque != OpaqueType::None && !cxt.config.union_complement_index() {
             // XdrIndexer を使用する場合は serde 属性が使用できないのでラッパオブジェクトを使用する。
             v_ty = wrap_opaque_token(v_ty, opaque);
-- 
2.43.0


From 2ac1a26bb3c620228b20e5470d737cf72cb9e87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 27/28] fix: complete only as many values as a compiler can
 handle

---
 rpcgen/src/gen_code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 919e9f3..7455009 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -28,7 +28,7 @@ impl Config {
 }
 
 /// Larger values are not reached by completing the values below them.
-const MAX_COMPLEMENT_INDEX: i32 = 65536;
+const MAX_COMPLEMENT_INDEX: i32 = 8192;
 
 struct Context {
     config: Config,
-- 
2.43.0


From 4303e611b6345cb021a641f44745cab3ce9e98b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:05 +0000
Subject: [PATCH 28/28] fix: keep the names of derived code apart from those of
 the user

---
 serde-xdr-derive/src/lib.rs | 90 ++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 45 deletions(-)

diff --git a/serde-xdr-derive/src/lib.rs b/serde-xdr-derive/src/lib.rs
index 99ff5c6..ce1443e 100644
--- a/serde-xdr-derive/src/lib.rs
+++ b/serde-xdr-derive/src/lib.rs
@@ -23,15 +23,15 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                 let mut de_rets = vec![];
 
                 for (i, field) in unnamed.unnamed.iter().enumerate() {
-                    let arg_ident = format_ident!("a{}", i);
-                    let ret_ident = format_ident!("r{}", i);
+                    let arg_ident = format_ident!("__a{}", i);
+                    let ret_ident = format_ident!("__r{}", i);
                     let ty = &field.ty;
                     ser_args.push(quote! { #arg_ident });
                     ser_stmts.push(quote! {
-                        ser.serialize_element(#arg_ident)?
+                        __ser.serialize_element(#arg_ident)?
                     });
                     de_stmts.push(quote! {
-                        let #ret_ident = seq.next_element::<#ty>()?.unwrap()
+                        let #ret_ident = __seq.next_element::<#ty>()?.unwrap()
                     });
                     de_rets.push(quote! { #ret_ident });
                 }
@@ -61,53 +61,53 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
     let max_len = 1 + max_fields_len(&ast);
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
-            fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+            fn serialize<__S>(&self, __serializer: __S) -> ::std::result::Result<__S::Ok, __S::Error>
             where
-                S: ::serde::ser::Serializer,
+                __S: ::serde::ser::Serializer,
             {
-                let index = self.index();
+                let __index = self.index();
 
-                let mut ser = serializer.serialize_tuple(index as usize)?;
-                ser.serialize_element(&index)?;
+                let mut __ser = __serializer.serialize_tuple(__index as usize)?;
+                __ser.serialize_element(&__index)?;
 
                 match self {
                     #(#ser_match_arms),*,
                     _ => unimplemented!(),
                 }
 
-                ser.end()
+                __ser.end()
             }
         }
 
         impl<'de> ::serde::Deserialize<'de> for #ident {
-            fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+            fn deserialize<__D>(__deserializer: __D) -> ::std::result::Result<Self, __D::Error>
             where
-                D: ::serde::de::Deserializer<'de>
+                __D: ::serde::de::Deserializer<'de>
             {
-                struct XdrIndexerVisitor;
+                struct __XdrIndexerVisitor;
 
-                impl<'de> ::serde::de::Visitor<'de> for XdrIndexerVisitor {
+                impl<'de> ::serde::de::Visitor<'de> for __XdrIndexerVisitor {
                     type Value = #ident;
 
-                    fn expecting(&self, formatter: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
-                        formatter.write_str(&format!("a {}", stringify!(#ident)))
+                    fn expecting(&self, __formatter: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
+                        __formatter.write_str(&format!("a {}", stringify!(#ident)))
                     }
 
-                    fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+                    fn visit_seq<__A>(self, mut __seq: __A) -> ::std::result::Result<Self::Value, __A::Error>
                     where
-                        A: ::serde::de::SeqAccess<'de>,
+                        __A: ::serde::de::SeqAccess<'de>,
                     {
-                        let index = seq.next_element::<i32>()?.unwrap();
-                        let variant = Self::Value::name_by_index(index)
-                            .map_err(|_| ::serde::de::Error::custom(format!("Can not convert from {}", index)))?;
-                        match variant {
+                        let __index = __seq.next_element::<i32>()?.unwrap();
+                        let __variant = Self::Value::name_by_index(__index)
+                            .map_err(|_| ::serde::de::Error::custom(format!("Can not convert from {}", __index)))?;
+                        match __variant {
                             #(#de_match_arms),*,
                             _ => unimplemented!(),
                         }
                     }
                 }
 
-                deserializer.deserialize_tuple(#max_len, XdrIndexerVisitor)
+                __deserializer.deserialize_tuple(#max_len, __XdrIndexerVisitor)
             }
         }
     };
@@ -138,20 +138,20 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
 
                 let mut first = true;
                 for (i, field) in unnamed.unnamed.iter().enumerate() {
-                    let arg_ident = format_ident!("a{}", i);
-                    let ret_ident = format_ident!("r{}", i);
+                    let arg_ident = format_ident!("__a{}", i);
+                    let ret_ident = format_ident!("__r{}", i);
                     let ty = &field.ty;
 
                     ser_args.push(quote! { #arg_ident });
                     ser_stmts.push(quote! {
-                        ser.serialize_element(#arg_ident)?
+                        __ser.serialize_element(#arg_ident)?
                     });
 
                     if first {
-                        de_rets.push(quote! { value });
+                        de_rets.push(quote! { __value });
                     } else {
                         de_stmts.push(quote! {
-                            let #ret_ident = seq.next_element::<#ty>()?.unwrap()
+                            let #ret_ident = __seq.next_element::<#ty>()?.unwrap()
                         });
                         de_rets.push(quote! { #ret_ident });
                     }
@@ -188,50 +188,50 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
     let max_len = max_fields_len(&ast);
     let serde_ast = quote! {
         impl ::serde::Serialize for #ident {
-            fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+            fn serialize<__S>(&self, __serializer: __S) -> ::std::result::Result<__S::Ok, __S::Error>
             where
-                S: ::serde::ser::Serializer,
+                __S: ::serde::ser::Serializer,
             {
-                let mut ser = serializer.serialize_tuple(2usize)?;
+                let mut __ser = __serializer.serialize_tuple(2usize)?;
 
                 match self {
                     #(#ser_match_arms),*,
                     _ => unimplemented!(),
                 }
 
-                ser.end()
+                __ser.end()
             }
         }
 
         impl<'de> ::serde::Deserialize<'de> for #ident {
-            fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+            fn deserialize<__D>(__deserializer: __D) -> ::std::result::Result<Self, __D::Error>
             where
-                D: ::serde::de::Deserializer<'de>
+                __D: ::serde::de::Deserializer<'de>
             {
-                struct XdrUnionVisitor;
+                struct __XdrUnionVisitor;
 
-                impl<'de> ::serde::de::Visitor<'de> for XdrUnionVisitor {
+                impl<'de> ::serde::de::Visitor<'de> for __XdrUnionVisitor {
                     type Value = #ident;
 
-                    fn expecting(&self, formatter: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
-                        formatter.write_str(&format!("a {}", stringify!(#ident)))
+                    fn expecting(&self, __formatter: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
+                        __formatter.write_str(&format!("a {}", stringify!(#ident)))
                     }
 
-                    fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+                    fn visit_seq<__A>(self, mut __seq: __A) -> ::std::result::Result<Self::Value, __A::Error>
                     where
-                        A: ::serde::de::SeqAccess<'de>,
+                        __A: ::serde::de::SeqAccess<'de>,
                     {
-                        let value = seq.next_element::<#value_ty>()?.unwrap();
-                        let variant = Self::Value::name_by_value(&value)
-                            .map_err(|_| ::serde::de::Error::custom(format!("Can not convert from {:?}", &value)))?;
-                        match variant {
+                        let __value = __seq.next_element::<#value_ty>()?.unwrap();
+                        let __variant = Self::Value::name_by_value(&__value)
+                            .map_err(|_| ::serde::de::Error::custom(format!("Can not convert from {:?}", &__value)))?;
+                        match __variant {
                             #(#de_match_arms),*,
                             _ => unimplemented!(),
                         }
                     }
                 }
 
-                deserializer.deserialize_tuple(#max_len, XdrUnionVisitor)
+                __deserializer.deserialize_tuple(#max_len, __XdrUnionVisitor)
             }
         }
     };
-- 
2.43.0

