From 530ea5708219915056919bf600e25ed0dbb7cd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 01/20] fix: report missing padding of strings and byte strings
 instead of panicking

---
 serde-xdr/src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde-xdr/src/de.rs b/serde-xdr/src/de.rs
index 8f748f2..b4a8f71 100644
--- a/serde-xdr/src/de.rs
+++ b/serde-xdr/src/de.rs
@@ -88,7 +88,7 @@ impl<'de> Deserializer<'de> {
         let v = self.read(size)?;
         let v = str::from_utf8(v)?;
         if padding_size < 4 {
-            self.input = &self.input[padding_size..];
+            self.read(padding_size)?;
         }
         Ok(v)
     }
@@ -99,7 +99,7 @@ impl<'de> Deserializer<'de> {
 
         let v = self.read(size)?;
         if padding_size < 4 {
-            self.input = &self.input[padding_size..];
+            self.read(padding_size)?;
         }
         Ok(v)
     }
-- 
2.43.0


From 2540db02fb0fd02049d4775f10e99cc7ac995f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 02/20] fix: refuse lengths above 2^32-1 instead of truncating
 the length word

---
 serde-xdr/src/ser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serde-xdr/src/ser.rs b/serde-xdr/src/ser.rs
index 81a5946..54818bf 100644
--- a/serde-xdr/src/ser.rs
+++ b/serde-xdr/src/ser.rs
@@ -89,7 +89,7 @@ impl ser::Serializer for &mut Serializer {
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok, Self::Error> {
         let size = v.len();
         let padding_size = 4 - size % 4;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         self.output.extend_from_slice(v);
         if padding_size < 4 {
             let mut padding = vec![0u8; padding_size];
@@ -155,7 +155,7 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         let size = len.ok_or(Error::NotSupported)?;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         Ok(self)
     }
 
@@ -184,7 +184,7 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         let size = len.ok_or(Error::NotSupported)?;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         Ok(self)
     }
 
-- 
2.43.0


From b9395677578740e117bdd4281f65d564bf4b546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 03/20] fix: refuse 8 and 16 bit integers whose word is out of
 range instead of truncating

---
 serde-xdr/src/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/serde-xdr/src/de.rs b/serde-xdr/src/de.rs
index b4a8f71..fd74a0c 100644
--- a/serde-xdr/src/de.rs
+++ b/serde-xdr/src/de.rs
@@ -126,14 +126,14 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_i8(self.read_i32()? as i8)
+        visitor.visit_i8(self.read_i32()?.try_into()?)
     }
 
     fn deserialize_i16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_i16(self.read_i32()? as i16)
+        visitor.visit_i16(self.read_i32()?.try_into()?)
     }
 
     fn deserialize_i32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -154,14 +154,14 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_u8(self.read_u32()? as u8)
+        visitor.visit_u8(self.read_u32()?.try_into()?)
     }
 
     fn deserialize_u16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_u16(self.read_u32()? as u16)
+        visitor.visit_u16(self.read_u32()?.try_into()?)
     }
 
     fn deserialize_u32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From f36116de7104265e2f3d513f38537385703e3e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 04/20] fix: do not allocate the claimed size of an opaque
 before reading its data

---
 serde-xdr/src/opaque.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/serde-xdr/src/opaque.rs b/serde-xdr/src/opaque.rs
index b2bf25c..4db1104 100644
--- a/serde-xdr/src/opaque.rs
+++ b/serde-xdr/src/opaque.rs
@@ -69,16 +69,15 @@ where
 {
     let size = seq.size_hint().unwrap();
 
-    let mut bytes = vec![0u8; size];
+    // `size` comes from the input, do not allocate it before the data is there.
+    let mut bytes = vec![];
     let padded_len = size.div_ceil(4);
 
-    let mut idx = 0;
     for _ in 0..padded_len {
         if let Some(v) = seq.next_element::<u32>()? {
             for b in v.to_be_bytes() {
-                if idx < size {
-                    bytes[idx] = b;
-                    idx += 1;
+                if bytes.len() < size {
+                    bytes.push(b);
                 }
             }
         }
-- 
2.43.0


From 82b9429dadf07770a1dac2922fd54e3ea9d50768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 05/20] fix: derived decoders read every field of variants with
 more than ten fields

---
 serde-xdr-derive/src/lib.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/serde-xdr-derive/src/lib.rs b/serde-xdr-derive/src/lib.rs
index 360cc0c..0b7317f 100644
--- a/serde-xdr-derive/src/lib.rs
+++ b/serde-xdr-derive/src/lib.rs
@@ -10,6 +10,13 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
 
     let mut ser_match_arms = vec![];
     let mut de_match_arms = vec![];
+    // index and fields.
+    let max_len = 1 + ast
+        .variants
+        .iter()
+        .map(|v| v.fields.len())
+        .max()
+        .unwrap_or(0);
     for variant in ast.variants.iter() {
         let variant_ident = &variant.ident;
         match &variant.fields {
@@ -105,7 +112,7 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                     }
                 }
 
-                deserializer.deserialize_tuple(10, XdrIndexerVisitor)
+                deserializer.deserialize_tuple(#max_len, XdrIndexerVisitor)
             }
         }
     };
@@ -122,6 +129,14 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
     let mut ser_match_arms = vec![];
     let mut de_match_arms = vec![];
     let mut value_ty: Option<Type> = None;
+    // at least value.
+    let max_len = ast
+        .variants
+        .iter()
+        .map(|v| v.fields.len())
+        .max()
+        .unwrap_or(0)
+        .max(1);
     for variant in ast.variants.iter() {
         let variant_ident = &variant.ident;
         match &variant.fields {
@@ -228,7 +243,7 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                     }
                 }
 
-                deserializer.deserialize_tuple(10, XdrUnionVisitor)
+                deserializer.deserialize_tuple(#max_len, XdrUnionVisitor)
             }
         }
     };
-- 
2.43.0


From 91e5cf489ce6ea09a04d5d0262ea52a19eb7ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 06/20] fix: recognise keywords as whole words only

---
 rpcgen/src/parser.rs | 89 +++++++++++++++-----------------------------
 1 file changed, 29 insertions(+), 60 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index b178a94..581988e 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -8,7 +8,7 @@ use nom::{
         alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, multispace1,
         not_line_ending, oct_digit1, one_of,
     },
-    combinator::{map, opt, peek, recognize, verify},
+    combinator::{map, not, opt, recognize, verify},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -444,7 +444,7 @@ fn case_spec(input: &str) -> IResult<&str, CaseSpec> {
     map(
         (
             many1(delimited(
-                (comment0, tag("case"), comment0),
+                (comment0, word("case"), comment0),
                 value,
                 (comment0, tag(":"), comment0),
             )),
@@ -499,7 +499,7 @@ fn decimal_nonzero(input: &str) -> IResult<&str, Constant> {
 fn declaration(input: &str) -> IResult<&str, Declaration> {
     // 優先度順に並べる。
     alt((
-        map(tag("void"), |_| Declaration::void()),
+        map(word("void"), |_| Declaration::void()),
         map(
             (
                 preceded((tag("opaque"), multispace1), identifier),
@@ -667,67 +667,29 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
 
 fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
     alt((
-        map(
-            (
-                tag("unsigned"),
-                multispace1,
-                terminated(tag("int"), peek(multispace1)),
-            ),
-            |_| TypeSpecifier::Int(false),
-        ),
-        map(terminated(tag("int"), peek(multispace1)), |_| {
-            TypeSpecifier::Int(true)
+        map((tag("unsigned"), multispace1, word("int")), |_| {
+            TypeSpecifier::Int(false)
         }),
-        map(
-            (
-                tag("unsigned"),
-                multispace1,
-                terminated(tag("hyper"), peek(multispace1)),
-            ),
-            |_| TypeSpecifier::Hyper(false),
-        ),
-        map(terminated(tag("hyper"), peek(multispace1)), |_| {
-            TypeSpecifier::Hyper(true)
+        map(word("int"), |_| TypeSpecifier::Int(true)),
+        map((tag("unsigned"), multispace1, word("hyper")), |_| {
+            TypeSpecifier::Hyper(false)
         }),
+        map(word("hyper"), |_| TypeSpecifier::Hyper(true)),
         // start (libvirt extenstion)
-        map(
-            (
-                tag("unsigned"),
-                multispace1,
-                terminated(tag("char"), peek(multispace1)),
-            ),
-            |_| TypeSpecifier::Char(false),
-        ),
-        map(terminated(tag("char"), peek(multispace1)), |_| {
-            TypeSpecifier::Char(true)
-        }),
-        map(
-            (
-                tag("unsigned"),
-                multispace1,
-                terminated(tag("short"), peek(multispace1)),
-            ),
-            |_| TypeSpecifier::Short(false),
-        ),
-        map(terminated(tag("short"), peek(multispace1)), |_| {
-            TypeSpecifier::Short(true)
+        map((tag("unsigned"), multispace1, word("char")), |_| {
+            TypeSpecifier::Char(false)
         }),
-        map(terminated(tag("unsigned"), peek(multispace1)), |_| {
-            TypeSpecifier::Int(false)
+        map(word("char"), |_| TypeSpecifier::Char(true)),
+        map((tag("unsigned"), multispace1, word("short")), |_| {
+            TypeSpecifier::Short(false)
         }),
+        map(word("short"), |_| TypeSpecifier::Short(true)),
+        map(word("unsigned"), |_| TypeSpecifier::Int(false)),
         // end (libvirt extenstion)
-        map(terminated(tag("float"), peek(multispace1)), |_| {
-            TypeSpecifier::Float
-        }),
-        map(terminated(tag("double"), peek(multispace1)), |_| {
-            TypeSpecifier::Double
-        }),
-        map(terminated(tag("quadruple"), peek(multispace1)), |_| {
-            TypeSpecifier::Quadruple
-        }),
-        map(terminated(tag("bool"), peek(multispace1)), |_| {
-            TypeSpecifier::Bool
-        }),
+        map(word("float"), |_| TypeSpecifier::Float),
+        map(word("double"), |_| TypeSpecifier::Double),
+        map(word("quadruple"), |_| TypeSpecifier::Quadruple),
+        map(word("bool"), |_| TypeSpecifier::Bool),
         map(enum_type_spec, TypeSpecifier::enum_type),
         map(struct_type_spec, TypeSpecifier::struct_type),
         map(union_type_spec, TypeSpecifier::union_type),
@@ -767,6 +729,13 @@ fn union_type_spec(input: &str) -> IResult<&str, UnionTypeSpec> {
     .parse(input)
 }
 
+/// keyword that is not a part of longer identifier.
+fn word<'a>(
+    keyword: &'static str,
+) -> impl Parser<&'a str, Output = &'a str, Error = nom::error::Error<&'a str>> {
+    terminated(tag(keyword), not(alt((alphanumeric1, tag("_")))))
+}
+
 fn value(input: &str) -> IResult<&str, Value> {
     alt((
         map(constant, Value::constant),
@@ -811,13 +780,13 @@ fn procedure(input: &str) -> IResult<&str, Procedure> {
     map(
         (
             terminated(
-                alt((type_specifier, map(tag("void"), |_| TypeSpecifier::Void))),
+                alt((type_specifier, map(word("void"), |_| TypeSpecifier::Void))),
                 multispace1,
             ),
             identifier,
             delimited(
                 (multispace0, tag("("), multispace0),
-                alt((type_specifier, map(tag("void"), |_| TypeSpecifier::Void))),
+                alt((type_specifier, map(word("void"), |_| TypeSpecifier::Void))),
                 (multispace0, tag(")"), multispace0),
             ),
             delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
-- 
2.43.0


From 10422549add28104c514badfa58cc0b6a94d8499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 07/20] fix: allow white space and comments between any two
 tokens

Comments were only recognised between definitions, and brackets and the
ends of lists did not admit layout everywhere.
---
 rpcgen/src/parser.rs | 94 +++++++++++++++++++++++++-------------------
 1 file changed, 53 insertions(+), 41 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 581988e..6304c4f 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -5,8 +5,8 @@ use nom::{
     branch::alt,
     bytes::complete::{tag, take_until},
     character::complete::{
-        alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, multispace1,
-        not_line_ending, oct_digit1, one_of,
+        alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, not_line_ending,
+        oct_digit1, one_of,
     },
     combinator::{map, not, opt, recognize, verify},
     multi::{many0, many1, separated_list1},
@@ -482,7 +482,7 @@ fn constant(input: &str) -> IResult<&str, Constant> {
 
 fn constant_def(input: &str) -> IResult<&str, Assign> {
     preceded(
-        (tag("const"), multispace1),
+        (word("const"), comment0),
         terminated(assign, (comment0, tag(";"))),
     )
     .parse(input)
@@ -502,50 +502,62 @@ fn declaration(input: &str) -> IResult<&str, Declaration> {
         map(word("void"), |_| Declaration::void()),
         map(
             (
-                preceded((tag("opaque"), multispace1), identifier),
-                delimited(tag("["), value, tag("]")),
+                preceded((word("opaque"), comment0), identifier),
+                delimited((comment0, tag("["), comment0), value, (comment0, tag("]"))),
             ),
             |(i, v)| Declaration::opaque_fixed_array(i, v),
         ),
         map(
             (
-                preceded((tag("opaque"), multispace1), identifier),
-                delimited(tag("<"), opt(value), tag(">")),
+                preceded((word("opaque"), comment0), identifier),
+                delimited(
+                    (comment0, tag("<"), comment0),
+                    opt(value),
+                    (comment0, tag(">")),
+                ),
             ),
             |(i, v)| Declaration::opaque_variable_array(i, v),
         ),
         map(
             (
-                preceded((tag("string"), multispace1), identifier),
-                delimited(tag("<"), opt(value), tag(">")),
+                preceded((word("string"), comment0), identifier),
+                delimited(
+                    (comment0, tag("<"), comment0),
+                    opt(value),
+                    (comment0, tag(">")),
+                ),
             ),
             |(i, v)| Declaration::string(i, v),
         ),
         map(
             (
                 type_specifier,
-                preceded(multispace1, identifier),
-                delimited(tag("["), value, tag("]")),
+                preceded(comment0, identifier),
+                delimited((comment0, tag("["), comment0), value, (comment0, tag("]"))),
             ),
             |(t, i, v)| Declaration::fixed_array(t, i, v),
         ),
         map(
             (
                 type_specifier,
-                preceded(multispace1, identifier),
-                delimited(tag("<"), opt(value), tag(">")),
+                preceded(comment0, identifier),
+                delimited(
+                    (comment0, tag("<"), comment0),
+                    opt(value),
+                    (comment0, tag(">")),
+                ),
             ),
             |(t, i, v)| Declaration::variable_array(t, i, v),
         ),
         map(
             (
                 type_specifier,
-                preceded((multispace0, tag("*"), multispace0), identifier),
+                preceded((comment0, tag("*"), comment0), identifier),
             ),
             |(t, i)| Declaration::option_variable(t, i),
         ),
         map(
-            (type_specifier, preceded(multispace1, identifier)),
+            (type_specifier, preceded(comment0, identifier)),
             |(t, i)| Declaration::variable(t, i),
         ),
     ))
@@ -573,7 +585,7 @@ fn enum_body(input: &str) -> IResult<&str, Vec<Assign>> {
 
 fn enum_type_spec(input: &str) -> IResult<&str, EnumTypeSpec> {
     map(
-        preceded((tag("enum"), multispace1), enum_body),
+        preceded((word("enum"), comment0), enum_body),
         EnumTypeSpec::new,
     )
     .parse(input)
@@ -607,7 +619,7 @@ fn octal(input: &str) -> IResult<&str, Constant> {
 }
 
 fn specification(input: &str) -> IResult<&str, Vec<Definition>> {
-    many0(delimited(comment0, definition, comment0)).parse(input)
+    terminated(many0(preceded(comment0, definition)), comment0).parse(input)
 }
 
 fn struct_body(input: &str) -> IResult<&str, Vec<Declaration>> {
@@ -621,7 +633,7 @@ fn struct_body(input: &str) -> IResult<&str, Vec<Declaration>> {
 
 fn struct_type_spec(input: &str) -> IResult<&str, StructTypeSpec> {
     map(
-        preceded((tag("struct"), multispace1), struct_body),
+        preceded((word("struct"), comment0), struct_body),
         StructTypeSpec::new,
     )
     .parse(input)
@@ -631,7 +643,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
     alt((
         map(
             delimited(
-                (tag("typedef"), multispace1),
+                (word("typedef"), comment0),
                 declaration,
                 (comment0, tag(";")),
             ),
@@ -639,7 +651,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
         ),
         map(
             delimited(
-                (tag("enum"), multispace1),
+                (word("enum"), comment0),
                 (terminated(identifier, comment0), enum_body),
                 (comment0, tag(";")),
             ),
@@ -647,7 +659,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
         ),
         map(
             delimited(
-                (tag("struct"), multispace1),
+                (word("struct"), comment0),
                 (terminated(identifier, comment0), struct_body),
                 (comment0, tag(";")),
             ),
@@ -655,7 +667,7 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
         ),
         map(
             delimited(
-                (tag("union"), multispace1),
+                (word("union"), comment0),
                 (terminated(identifier, comment0), union_body),
                 (comment0, tag(";")),
             ),
@@ -667,20 +679,20 @@ fn type_def(input: &str) -> IResult<&str, TypeDef> {
 
 fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
     alt((
-        map((tag("unsigned"), multispace1, word("int")), |_| {
+        map((word("unsigned"), comment0, word("int")), |_| {
             TypeSpecifier::Int(false)
         }),
         map(word("int"), |_| TypeSpecifier::Int(true)),
-        map((tag("unsigned"), multispace1, word("hyper")), |_| {
+        map((word("unsigned"), comment0, word("hyper")), |_| {
             TypeSpecifier::Hyper(false)
         }),
         map(word("hyper"), |_| TypeSpecifier::Hyper(true)),
         // start (libvirt extenstion)
-        map((tag("unsigned"), multispace1, word("char")), |_| {
+        map((word("unsigned"), comment0, word("char")), |_| {
             TypeSpecifier::Char(false)
         }),
         map(word("char"), |_| TypeSpecifier::Char(true)),
-        map((tag("unsigned"), multispace1, word("short")), |_| {
+        map((word("unsigned"), comment0, word("short")), |_| {
             TypeSpecifier::Short(false)
         }),
         map(word("short"), |_| TypeSpecifier::Short(true)),
@@ -723,7 +735,7 @@ fn union_body(input: &str) -> IResult<&str, UnionBody> {
 
 fn union_type_spec(input: &str) -> IResult<&str, UnionTypeSpec> {
     map(
-        preceded((tag("union"), multispace1), union_body),
+        preceded((word("union"), comment0), union_body),
         UnionTypeSpec::new,
     )
     .parse(input)
@@ -747,13 +759,13 @@ fn value(input: &str) -> IResult<&str, Value> {
 fn program(input: &str) -> IResult<&str, Program> {
     map(
         (
-            preceded((tag("program"), multispace1), identifier),
+            preceded((word("program"), comment0), identifier),
             delimited(
-                (multispace0, tag("{"), multispace0),
-                many1(version),
-                (multispace0, tag("}"), multispace0),
+                (comment0, tag("{"), comment0),
+                many1(terminated(version, comment0)),
+                (comment0, tag("}"), comment0),
             ),
-            delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
+            delimited((tag("="), comment0), value, (comment0, tag(";"))),
         ),
         |(a, b, c)| Program::new(a, b, c),
     )
@@ -763,13 +775,13 @@ fn program(input: &str) -> IResult<&str, Program> {
 fn version(input: &str) -> IResult<&str, Version> {
     map(
         (
-            preceded((tag("version"), multispace1), identifier),
+            preceded((word("version"), comment0), identifier),
             delimited(
-                (multispace0, tag("{"), multispace0),
-                many1(terminated(procedure, multispace0)),
-                (multispace0, tag("}"), multispace0),
+                (comment0, tag("{"), comment0),
+                many1(terminated(procedure, comment0)),
+                (comment0, tag("}"), comment0),
             ),
-            delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
+            delimited((tag("="), comment0), value, (comment0, tag(";"))),
         ),
         |(a, b, c)| Version::new(a, b, c),
     )
@@ -781,15 +793,15 @@ fn procedure(input: &str) -> IResult<&str, Procedure> {
         (
             terminated(
                 alt((type_specifier, map(word("void"), |_| TypeSpecifier::Void))),
-                multispace1,
+                comment0,
             ),
             identifier,
             delimited(
-                (multispace0, tag("("), multispace0),
+                (comment0, tag("("), comment0),
                 alt((type_specifier, map(word("void"), |_| TypeSpecifier::Void))),
-                (multispace0, tag(")"), multispace0),
+                (comment0, tag(")"), comment0),
             ),
-            delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
+            delimited((tag("="), comment0), value, (comment0, tag(";"))),
         ),
         |(a, b, c, d)| Procedure::new(a, b, c, d),
     )
-- 
2.43.0


From c27bcd8c2e674d9b9d83f0bb3077dd6057af3057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 08/20] fix: parse the type of a declaration only once

Every alternative of a declaration parsed its type again, the work grew by
a factor of four for each level of nested types.
---
 rpcgen/src/parser.rs | 64 +++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 6304c4f..9fca3e5 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -529,37 +529,7 @@ fn declaration(input: &str) -> IResult<&str, Declaration> {
             ),
             |(i, v)| Declaration::string(i, v),
         ),
-        map(
-            (
-                type_specifier,
-                preceded(comment0, identifier),
-                delimited((comment0, tag("["), comment0), value, (comment0, tag("]"))),
-            ),
-            |(t, i, v)| Declaration::fixed_array(t, i, v),
-        ),
-        map(
-            (
-                type_specifier,
-                preceded(comment0, identifier),
-                delimited(
-                    (comment0, tag("<"), comment0),
-                    opt(value),
-                    (comment0, tag(">")),
-                ),
-            ),
-            |(t, i, v)| Declaration::variable_array(t, i, v),
-        ),
-        map(
-            (
-                type_specifier,
-                preceded((comment0, tag("*"), comment0), identifier),
-            ),
-            |(t, i)| Declaration::option_variable(t, i),
-        ),
-        map(
-            (type_specifier, preceded(comment0, identifier)),
-            |(t, i)| Declaration::variable(t, i),
-        ),
+        type_declaration,
     ))
     .parse(input)
 }
@@ -639,6 +609,38 @@ fn struct_type_spec(input: &str) -> IResult<&str, StructTypeSpec> {
     .parse(input)
 }
 
+fn type_declaration(input: &str) -> IResult<&str, Declaration> {
+    // parse the type only once, the following part decides the kind of declaration.
+    let (input, ty) = type_specifier(input)?;
+    alt((
+        map(
+            (
+                preceded(comment0, identifier),
+                delimited((comment0, tag("["), comment0), value, (comment0, tag("]"))),
+            ),
+            |(i, v)| Declaration::fixed_array(ty.clone(), i, v),
+        ),
+        map(
+            (
+                preceded(comment0, identifier),
+                delimited(
+                    (comment0, tag("<"), comment0),
+                    opt(value),
+                    (comment0, tag(">")),
+                ),
+            ),
+            |(i, v)| Declaration::variable_array(ty.clone(), i, v),
+        ),
+        map(preceded((comment0, tag("*"), comment0), identifier), |i| {
+            Declaration::option_variable(ty.clone(), i)
+        }),
+        map(preceded(comment0, identifier), |i| {
+            Declaration::variable(ty.clone(), i)
+        }),
+    ))
+    .parse(input)
+}
+
 fn type_def(input: &str) -> IResult<&str, TypeDef> {
     alt((
         map(
-- 
2.43.0


From 6def7d0ba870028354b3d06ac3e8d9606a14421a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 09/20] fix: generate valid identifiers for any name

Names without letters crashed the generator, and names that become
reserved words only after the case conversion were not escaped.
---
 rpcgen/src/gen_code.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index c518714..4a7c20c 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -184,7 +184,7 @@ fn constants_token(cxt: &Context) -> Result<Vec<TokenStream>, Error> {
     let mut results = vec![];
 
     for (name, value) in &cxt.constants {
-        let name_ident = format_ident!("{}", name);
+        let name_ident = constant_ident(name);
         let (value_token, ty) = match convert_value_token::<u32>(value, false) {
             Ok(v) => Ok((v, quote! { u32 })),
             Err(_) => match convert_value_token::<u64>(value, false) {
@@ -384,7 +384,7 @@ fn convert_struct_token(
 
     let struct_type = Some(TypeSpecifier::Identifier(name.to_string()));
     for declaration in declarations {
-        let mut field_name = declaration.name().unwrap().to_string();
+        let field_name = declaration.name().unwrap().to_string();
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
 
         let derive = match opaque {
@@ -401,10 +401,6 @@ fn convert_struct_token(
             }
         };
 
-        if keyword::rust_reserved(&field_name) {
-            field_name = format!("r#{field_name}");
-        }
-
         let field_name_ident = snake_case_ident(&field_name);
 
         if struct_type == declaration.type_specifier() {
@@ -711,7 +707,7 @@ where
             let v = if cnv {
                 upper_camel_case_ident(i)
             } else {
-                format_ident!("{}", i)
+                constant_ident(i)
             };
             Ok(quote! { #v })
         }
@@ -917,7 +913,23 @@ fn upper_camel_case(value: &str) -> String {
 }
 
 fn upper_camel_case_ident(value: &str) -> Ident {
-    format_ident!("{}", upper_camel_case(value))
+    ident(&upper_camel_case(value), value)
+}
+
+fn constant_ident(value: &str) -> Ident {
+    ident(value, value)
+}
+
+/// valid rust identifier, `origin` is used if nothing is left by conversion.
+fn ident(name: &str, origin: &str) -> Ident {
+    match name {
+        "" | "_" => format_ident!("_{}", origin),
+        // could not use as raw identifier.
+        "crate" | "self" | "super" | "Self" => format_ident!("{}_", name),
+        _ if name.starts_with(|c: char| c.is_ascii_digit()) => format_ident!("_{}", name),
+        _ if keyword::rust_reserved(name) => format_ident!("r#{}", name),
+        _ => format_ident!("{}", name),
+    }
 }
 
 fn capitalize(value: &str) -> String {
@@ -970,7 +982,7 @@ fn snake_case(value: &str) -> String {
 }
 
 fn snake_case_ident(value: &str) -> Ident {
-    format_ident!("{}", snake_case(value))
+    ident(&snake_case(value), value)
 }
 
 fn with_underscore(value: &str) -> String {
-- 
2.43.0


From c6fb5dd5d9859aece51db591db5ae8cb4e59e59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 10/20] fix: refuse constants and types that are defined by
 themselves

Resolving such a name recursed until the stack was exhausted.
---
 rpcgen/src/gen_code.rs | 91 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 88 insertions(+), 3 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 4a7c20c..d575932 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -41,6 +41,68 @@ impl Context {
         }
     }
 
+    fn check_typedef_cycle(&self, declaration: &Declaration) -> Result<(), Error> {
+        let mut declaration = declaration.clone();
+        for _ in 0..=self.typedefs.len() {
+            let Some(TypeSpecifier::Identifier(name)) = declaration.type_specifier() else {
+                return Ok(());
+            };
+            match self.typedefs.iter().find(|(n, _)| n == &name) {
+                Some((_, TypeDef::Declaration(next))) => declaration = next.clone(),
+                _ => return Ok(()),
+            }
+        }
+
+        Err(Error::NotSupported)
+    }
+
+    fn check_value_cycle(&self, value: &Value) -> Result<(), Error> {
+        let mut value = value;
+        for _ in 0..=self.names() {
+            match value {
+                Value::Identifier(name) => match self.find_value(name) {
+                    Some(next) => value = next,
+                    _ => return Ok(()),
+                },
+                _ => return Ok(()),
+            }
+        }
+
+        Err(Error::NotSupported)
+    }
+
+    fn find_constant(&self, name: &str) -> Option<&Value> {
+        self.constants
+            .iter()
+            .find(|(n, _)| n == name)
+            .map(|(_, value)| value)
+    }
+
+    fn find_enumerator(&self, name: &str) -> Option<&Value> {
+        self.enumerators()
+            .find(|a| a.identifier == name)
+            .map(|a| &a.value)
+    }
+
+    fn find_value(&self, name: &str) -> Option<&Value> {
+        self.find_constant(name)
+            .or_else(|| self.find_enumerator(name))
+    }
+
+    fn enumerators(&self) -> impl Iterator<Item = &Assign> {
+        self.typedefs
+            .iter()
+            .filter_map(|(_, typedef)| match typedef {
+                TypeDef::Enum(_, assigns) => Some(assigns),
+                _ => None,
+            })
+            .flatten()
+    }
+
+    fn names(&self) -> usize {
+        self.constants.len() + self.enumerators().count()
+    }
+
     pub fn is_enum_type(&self, ty: TypeSpecifier) -> bool {
         if let TypeSpecifier::Identifier(name) = ty {
             return self.typedefs.iter().any(|(_, def)| match def {
@@ -87,8 +149,10 @@ impl Context {
     where
         T: TryFrom<&'a Constant>,
     {
-        self.resolve_const_value::<T>(name)
-            .or_else(|_| self.resolve_enum_value::<T>(name))
+        match self.find_constant(name) {
+            Some(_) => self.resolve_const_value::<T>(name),
+            _ => self.resolve_enum_value::<T>(name),
+        }
     }
 
     fn resolve_value<'a, T>(&'a self, value: &'a Value) -> Result<T, Error>
@@ -149,6 +213,27 @@ pub fn gen_code(definitions: Vec<Definition>, config: &Config) -> Result<String,
     Ok(binding.to_string())
 }
 
+/// reject names and types that are defined by themselves.
+fn check_cycle(cxt: &Context) -> Result<(), Error> {
+    for (_, value) in &cxt.constants {
+        cxt.check_value_cycle(value)?;
+    }
+
+    for (_, typedef) in &cxt.typedefs {
+        match typedef {
+            TypeDef::Enum(_, assigns) => {
+                for assign in assigns {
+                    cxt.check_value_cycle(&assign.value)?;
+                }
+            }
+            TypeDef::Declaration(declaration) => cxt.check_typedef_cycle(declaration)?,
+            _ => {}
+        }
+    }
+
+    Ok(())
+}
+
 fn setup_context(definitions: &[Definition], cxt: &mut Context) -> Result<(), Error> {
     for definition in definitions {
         match definition {
@@ -177,7 +262,7 @@ fn setup_context(definitions: &[Definition], cxt: &mut Context) -> Result<(), Er
         }
     }
 
-    Ok(())
+    check_cycle(cxt)
 }
 
 fn constants_token(cxt: &Context) -> Result<Vec<TokenStream>, Error> {
-- 
2.43.0


From 66e437405ea2da48bde17ace762ea908551e3340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 11/20] fix: generate constants and lengths with matching types

Negative constants were refused, and constants and lengths given by the
name of an enumerator or of another constant did not compile.
---
 rpcgen/src/gen_code.rs | 56 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index d575932..4fcc3e2 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -270,13 +270,7 @@ fn constants_token(cxt: &Context) -> Result<Vec<TokenStream>, Error> {
 
     for (name, value) in &cxt.constants {
         let name_ident = constant_ident(name);
-        let (value_token, ty) = match convert_value_token::<u32>(value, false) {
-            Ok(v) => Ok((v, quote! { u32 })),
-            Err(_) => match convert_value_token::<u64>(value, false) {
-                Ok(v) => Ok((v, quote! { u64 })),
-                Err(e) => Err(e),
-            },
-        }?;
+        let (value_token, ty) = convert_constant_token(value, cxt)?;
         results.push(quote! {
             pub const #name_ident: #ty = #value_token;
         });
@@ -779,6 +773,48 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     })
 }
 
+fn convert_constant_token(
+    value: &Value,
+    cxt: &Context,
+) -> Result<(TokenStream, TokenStream), Error> {
+    let (literal, ty) = if let Ok(v) = cxt.resolve_value::<u32>(value) {
+        (quote! { #v }, quote! { u32 })
+    } else if let Ok(v) = cxt.resolve_value::<u64>(value) {
+        (quote! { #v }, quote! { u64 })
+    } else {
+        match cxt.resolve_value::<i32>(value) {
+            Ok(v) => (quote! { #v }, quote! { i32 }),
+            // the name is not defined in this file.
+            Err(Error::NotFountIdentifier(_)) => {
+                (convert_value_token::<u32>(value, false)?, quote! { u32 })
+            }
+            Err(e) => return Err(e),
+        }
+    };
+
+    match value {
+        Value::Identifier(i) if cxt.find_constant(i).is_some() => {
+            Ok((convert_value_token::<u32>(value, false)?, ty))
+        }
+        _ => Ok((literal, ty)),
+    }
+}
+
+fn convert_length_token(value: &Value, cxt: &Context) -> Result<TokenStream, Error> {
+    match value {
+        Value::Constant(_) => convert_value_token::<usize>(value, false),
+        Value::Identifier(i) => match cxt.resolve_name::<usize>(i) {
+            Ok(v) if cxt.find_constant(i).is_none() => Ok(quote! { #v }),
+            // the name may be not defined in this file.
+            Ok(_) | Err(Error::NotFountIdentifier(_)) => {
+                let len = convert_value_token::<usize>(value, false)?;
+                Ok(quote! { #len as usize })
+            }
+            Err(e) => Err(e),
+        },
+    }
+}
+
 fn convert_value_token<'a, T>(value: &'a Value, cnv: bool) -> Result<TokenStream, Error>
 where
     T: TryFrom<&'a Constant> + ToTokens,
@@ -810,7 +846,7 @@ fn convert_type_token(
         }
         Declaration::FixedArray(type_specifier, _, value) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
-            let len = convert_value_token::<usize>(value, false)?;
+            let len = convert_length_token(value, cxt)?;
             Ok(Some((quote! { [#ty; #len] }, opaque)))
         }
         Declaration::VariableArray(type_specifier, _, _) => {
@@ -826,8 +862,8 @@ fn convert_type_token(
             }
         }
         Declaration::OpaqueFixedArray(_, value) => {
-            let len = convert_value_token::<usize>(value, false)?;
-            Ok(Some((quote! { [u8; #len as usize] }, OpaqueType::Fixed)))
+            let len = convert_length_token(value, cxt)?;
+            Ok(Some((quote! { [u8; #len] }, OpaqueType::Fixed)))
         }
         Declaration::OpaqueVariableArray(_, _) => {
             Ok(Some((quote! { Vec<u8> }, OpaqueType::Variable)))
-- 
2.43.0


From 6a9b23233e76c78947e581d49a178f9d9a3190a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 12/20] fix: refuse enum values that the generated code can not
 express

The largest value crashed the generator, negative values were silently
replaced when the index is complemented, and equal values did not compile.
---
 rpcgen/src/gen_code.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 4fcc3e2..addae35 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -332,8 +332,19 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
     let mut default_value = None;
 
     let mut start: i32 = 0;
+    let mut last = None;
     for (end, assign) in indexed {
+        if last == Some(end) {
+            return Err(Error::NotSupported);
+        }
+        last = Some(end);
+
         if cxt.config.enum_complement_index() {
+            if end < 0 {
+                // could not be index.
+                return Err(Error::NotSupported);
+            }
+
             for index in start..end {
                 // enum は index でシリアライズするため存在しない値は補完する。
                 let reserved = format_ident!("_Reserved{}", index.to_string());
@@ -364,7 +375,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             default_value = Some(quote! { #item_ident });
         }
 
-        start = end + 1;
+        start = end.saturating_add(1);
     }
 
     let as_ref = if cxt.config.enum_impl_std_trait {
-- 
2.43.0


From a71d4bc9b319104e13ef74e142abd50befbc5740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:48 +0000
Subject: [PATCH 13/20] fix: enums with std traits keep their value outside of
 struct fields

Only plain struct fields used the enum value, in arrays, options and unions
the position of enumerator was serialized or the code did not compile.
---
 rpcgen/src/gen_code.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index addae35..4183b07 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -437,8 +437,35 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
         quote! {}
     };
 
+    let serde_impl = if cxt.config.enum_impl_std_trait && !cxt.config.enum_impl_indexer {
+        // serialize as value instead of index wherever it is used.
+        quote! {
+            impl Serialize for #name_ident {
+                fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+                where
+                    S: serde::Serializer,
+                {
+                    serde_xdr::primitive::signed32::serialize(self, serializer)
+                }
+            }
+
+            impl<'de> Deserialize<'de> for #name_ident {
+                fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+                where
+                    D: serde::Deserializer<'de>,
+                {
+                    serde_xdr::primitive::signed32::deserialize(deserializer)
+                }
+            }
+        }
+    } else {
+        quote! {}
+    };
+
     let derive = if cxt.config.enum_impl_indexer {
         quote! { #[derive(Clone, Debug, PartialEq, XdrIndexer)] }
+    } else if cxt.config.enum_impl_std_trait {
+        quote! { #[derive(Clone, Debug, PartialEq)] }
     } else {
         quote! { #[derive(Clone, Debug, Deserialize, PartialEq, Serialize)] }
     };
@@ -457,6 +484,8 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             }
         }
 
+        #serde_impl
+
         #as_ref
 
         #try_from
@@ -482,7 +511,7 @@ fn convert_struct_token(
             OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
             _ => {
                 if cxt.config.enum_impl_std_trait
-                    && cxt.is_enum_type(declaration.type_specifier().unwrap())
+                    && matches!(declaration, Declaration::Variable(ty, _) if cxt.is_enum_type(ty.clone()))
                 {
                     quote! { #[serde(with = "serde_xdr::primitive::signed32")] }
                 } else {
-- 
2.43.0


From 9694feea46164ca2034d659e3dccfcf2b21dc605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:49 +0000
Subject: [PATCH 14/20] fix: generate nothing for void members of struct
 instead of panic

---
 rpcgen/src/gen_code.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 4183b07..875a79b 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -503,7 +503,10 @@ fn convert_struct_token(
 
     let struct_type = Some(TypeSpecifier::Identifier(name.to_string()));
     for declaration in declarations {
-        let field_name = declaration.name().unwrap().to_string();
+        // `void` does not have any field.
+        let Some(field_name) = declaration.name() else {
+            continue;
+        };
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
 
         let derive = match opaque {
@@ -520,7 +523,7 @@ fn convert_struct_token(
             }
         };
 
-        let field_name_ident = snake_case_ident(&field_name);
+        let field_name_ident = snake_case_ident(field_name);
 
         if struct_type == declaration.type_specifier() {
             // TODO: Add nested structure support.
-- 
2.43.0


From c3ec4c5b1abdda3e01efa0f42d0ba510d367feda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 15/20] fix: accept alias as discriminant type of union

---
 rpcgen/src/gen_code.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 875a79b..f7f8952 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -558,6 +558,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
         Declaration::Variable(cond_type, _) => Ok(cond_type),
         _ => Err(Error::NotSupported),
     }?;
+    let cond_type = &resolve_cond_type(cond_type, cxt)?;
 
     match cond_type {
         TypeSpecifier::Int(_) | TypeSpecifier::Identifier(_) => {
@@ -1038,6 +1039,22 @@ fn convert_case_token(
     }
 }
 
+/// type of discriminant without alias.
+fn resolve_cond_type(cond_type: &TypeSpecifier, cxt: &Context) -> Result<TypeSpecifier, Error> {
+    let mut cond_type = cond_type.clone();
+    while let TypeSpecifier::Identifier(name) = &cond_type {
+        match cxt.typedefs.iter().find(|(n, _)| n == name) {
+            Some((_, TypeDef::Declaration(Declaration::Variable(ty, _)))) => {
+                cond_type = ty.clone();
+            }
+            Some((_, TypeDef::Enum(_, _))) | None => break,
+            _ => return Err(Error::NotSupported),
+        }
+    }
+
+    Ok(cond_type)
+}
+
 fn resolve_type_token(value: &str, cxt: &Context) -> Result<(TokenStream, OpaqueType), Error> {
     if !cxt.config.remove_typedef {
         let name = upper_camel_case_ident(value);
-- 
2.43.0


From 4c4d317fd617a8b8410e7818c7173d43f44ffa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 16/20] fix: keep opaque data inside of arrays, options and
 union arms

---
 rpcgen/src/gen_code.rs  | 65 +++++++++++++++++++++++++----------------
 serde-xdr/src/opaque.rs | 25 +++++++++++++++-
 2 files changed, 64 insertions(+), 26 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index f7f8952..30e6421 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -890,20 +890,14 @@ fn convert_type_token(
         }
         Declaration::FixedArray(type_specifier, _, value) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
+            let ty = wrap_opaque_token(ty, opaque);
             let len = convert_length_token(value, cxt)?;
-            Ok(Some((quote! { [#ty; #len] }, opaque)))
+            Ok(Some((quote! { [#ty; #len] }, OpaqueType::None)))
         }
         Declaration::VariableArray(type_specifier, _, _) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
-            if opaque == OpaqueType::Variable {
-                Ok(Some((
-                    quote! { Vec<serde_xdr::opaque::VariableArray> },
-                    OpaqueType::None,
-                )))
-            } else {
-                // TODO: Add inner fixed opaque array support.
-                Ok(Some((quote! { Vec<#ty> }, opaque)))
-            }
+            let ty = wrap_opaque_token(ty, opaque);
+            Ok(Some((quote! { Vec<#ty> }, OpaqueType::None)))
         }
         Declaration::OpaqueFixedArray(_, value) => {
             let len = convert_length_token(value, cxt)?;
@@ -915,7 +909,8 @@ fn convert_type_token(
         Declaration::String(_, _) => Ok(Some((quote! { String }, OpaqueType::None))),
         Declaration::OptionVariable(type_specifier, _) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
-            Ok(Some((quote! { Option<#ty> }, opaque)))
+            let ty = wrap_opaque_token(ty, opaque);
+            Ok(Some((quote! { Option<#ty> }, OpaqueType::None)))
         }
         Declaration::Void => Ok(None),
     }
@@ -989,20 +984,7 @@ fn convert_case_token(
         }
     };
 
-    let decl = convert_type_token(declaration, cxt)?;
-    if let Some((mut v_ty, opaque)) = decl {
-        let derive = if opaque != OpaqueType::None && !cxt.config.union_complement_index() {
-            // XdrIndexer を使用する場合は serde 属性が使用できないのでラッパオブジェクトを使用する。
-            v_ty = quote! { serde_xdr::opaque::VariableArray };
-            quote! {}
-        } else {
-            match opaque {
-                OpaqueType::Fixed => quote! { #[serde(with = "serde_xdr::opaque::fixed")] },
-                OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
-                _ => quote! {},
-            }
-        };
-
+    if let Some((derive, v_ty)) = convert_arm_token(declaration, cxt)? {
         let value_token = if cxt.config.union_impl_union {
             quote! {
                 #derive
@@ -1039,6 +1021,39 @@ fn convert_case_token(
     }
 }
 
+/// attribute and type of the arm.
+fn convert_arm_token(
+    declaration: &Declaration,
+    cxt: &Context,
+) -> Result<Option<(TokenStream, TokenStream)>, Error> {
+    let Some((v_ty, opaque)) = convert_type_token(declaration, cxt)? else {
+        return Ok(None);
+    };
+
+    Ok(Some(if cxt.config.union_complement_index() {
+        match opaque {
+            OpaqueType::Fixed => (quote! { #[serde(with = "serde_xdr::opaque::fixed")] }, v_ty),
+            OpaqueType::Variable => (
+                quote! { #[serde(with = "serde_xdr::opaque::variable")] },
+                v_ty,
+            ),
+            OpaqueType::None => (quote! {}, v_ty),
+        }
+    } else {
+        // XdrIndexer を使用する場合は serde 属性が使用できないのでラッパオブジェクトを使用する。
+        (quote! {}, wrap_opaque_token(v_ty, opaque))
+    }))
+}
+
+/// wrapper object where serde attribute could not be used.
+fn wrap_opaque_token(ty: TokenStream, opaque: OpaqueType) -> TokenStream {
+    match opaque {
+        OpaqueType::Fixed => quote! { serde_xdr::opaque::FixedArray<#ty> },
+        OpaqueType::Variable => quote! { serde_xdr::opaque::VariableArray },
+        OpaqueType::None => ty,
+    }
+}
+
 /// type of discriminant without alias.
 fn resolve_cond_type(cond_type: &TypeSpecifier, cxt: &Context) -> Result<TypeSpecifier, Error> {
     let mut cond_type = cond_type.clone();
diff --git a/serde-xdr/src/opaque.rs b/serde-xdr/src/opaque.rs
index 4db1104..ab779e1 100644
--- a/serde-xdr/src/opaque.rs
+++ b/serde-xdr/src/opaque.rs
@@ -1,5 +1,5 @@
 use serde::de::{SeqAccess, Visitor};
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use std::fmt;
 use std::marker::PhantomData;
 
@@ -9,6 +9,29 @@ pub struct VariableArray {
     pub data: Vec<u8>,
 }
 
+#[derive(Clone, Debug, Default, PartialEq)]
+pub struct FixedArray<T> {
+    pub data: T,
+}
+
+impl<const N: usize> Serialize for FixedArray<[u8; N]> {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        fixed::serialize(&self.data.as_slice(), serializer)
+    }
+}
+
+impl<'de, const N: usize> Deserialize<'de> for FixedArray<[u8; N]> {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        fixed::deserialize(deserializer).map(|data| FixedArray { data })
+    }
+}
+
 struct OpaqueVisitor<T> {
     marker: PhantomData<T>,
 }
-- 
2.43.0


From ec851a7a5f55eccd82e4a5ec1b43c32dbff5fb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 17/20] fix: match discriminants of union by value

---
 rpcgen/src/gen_code.rs | 165 +++++++++++++++++++++++++++++------------
 1 file changed, 116 insertions(+), 49 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 30e6421..15e4c1b 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -99,6 +99,20 @@ impl Context {
             .flatten()
     }
 
+    fn enumerator_name(&self, enum_name: &str, index: u32) -> Result<&str, Error> {
+        self.typedefs
+            .iter()
+            .find_map(|(_, typedef)| match typedef {
+                TypeDef::Enum(name, assigns) if name == enum_name => Some(assigns),
+                _ => None,
+            })
+            .into_iter()
+            .flatten()
+            .find(|a| matches!(self.resolve_value::<u32>(&a.value), Ok(v) if v == index))
+            .map(|a| a.identifier.as_str())
+            .ok_or(Error::NotSupported)
+    }
+
     fn names(&self) -> usize {
         self.constants.len() + self.enumerators().count()
     }
@@ -552,6 +566,8 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     let mut xdr_union_name_by_value = vec![];
     let mut xdr_union_cond_type = None;
     let mut default_value = None;
+    // value of bool that does not have `case`.
+    let mut bool_default = None;
     let name_ident = upper_camel_case_ident(name);
 
     let cond_type = match &body.cond {
@@ -573,7 +589,18 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             values.sort_by_key(|s| s.0);
 
             let mut sindex: u32 = 0;
+            let mut last = None;
             for (eindex, decl, value_token) in values {
+                if last == Some(eindex) {
+                    return Err(Error::NotSupported);
+                }
+                last = Some(eindex);
+
+                if cond_type != &TypeSpecifier::Int(false) && i32::try_from(eindex).is_err() {
+                    // could not be discriminant.
+                    return Err(Error::NotSupported);
+                }
+
                 if cxt.config.union_complement_index() {
                     for index in sindex..eindex {
                         // enum は index でシリアライズするため存在しない値は補完する。
@@ -603,25 +630,36 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 if cxt.is_enum_type(cond_type.clone()) {
                     if let TypeSpecifier::Identifier(cond_type) = cond_type {
                         let cond_type_ident = upper_camel_case_ident(cond_type);
-                        if let Value::Identifier(value) = value_token {
-                            let value_ident = upper_camel_case_ident(value);
-                            xdr_union_name_by_value.push(quote! {
-                                #cond_type_ident::#value_ident => Ok(stringify!(#variant))
-                            });
-                        }
+                        let value = cxt.enumerator_name(cond_type, eindex)?;
+                        let value_ident = upper_camel_case_ident(value);
+                        xdr_union_name_by_value.push(quote! {
+                            #cond_type_ident::#value_ident => Ok(stringify!(#variant))
+                        });
                     }
+                } else if cond_type == &TypeSpecifier::Int(true) {
+                    xdr_union_name_by_value.push(quote! {
+                        #index => Ok(stringify!(#variant))
+                    });
                 } else {
                     xdr_union_name_by_value.push(quote! {
                         #eindex => Ok(stringify!(#variant))
                     });
                 }
 
-                sindex = eindex + 1;
+                sindex = eindex.saturating_add(1);
 
                 xdr_union_cond_type = Some(tmp_type);
             }
         }
         TypeSpecifier::Bool => {
+            let mut labels = vec![];
+            for value in body.specs.iter().flat_map(|s| &s.values) {
+                if !(value.is_false() || value.is_true()) || labels.contains(&value) {
+                    return Err(Error::NotSupported);
+                }
+                labels.push(value);
+            }
+
             let false_case = body
                 .specs
                 .iter()
@@ -650,7 +688,8 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     });
                 }
                 _ => {
-                    if cxt.config.union_complement_index() {
+                    bool_default = Some(false);
+                    if cxt.config.union_complement_index() && body.default.is_none() {
                         specs.push(quote! {
                             _Reserved0
                         });
@@ -686,7 +725,8 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     });
                 }
                 _ => {
-                    if cxt.config.union_complement_index() {
+                    bool_default = Some(true);
+                    if cxt.config.union_complement_index() && body.default.is_none() {
                         specs.push(quote! {
                             _Reserved1
                         });
@@ -700,43 +740,72 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     }
 
     if let Some(default) = &body.default {
-        if let Some((v_ty, _)) = convert_type_token(default, cxt)? {
-            if cxt.config.union_impl_union {
-                specs.push(quote! {
+        let (spec, variant_arm, value) = match convert_arm_token(default, cxt)? {
+            Some((derive, v_ty)) if cxt.config.union_impl_union => (
+                quote! {
+                    #derive
                     Default(#xdr_union_cond_type, #v_ty)
-                });
-
-                default_value = Some(quote! { Default(Default::default(), Default::default()) });
-            } else {
-                specs.push(quote! {
+                },
+                quote! { Default(_, _) },
+                quote! { Default(Default::default(), Default::default()) },
+            ),
+            Some((derive, v_ty)) => (
+                quote! {
+                    #derive
                     Default(#v_ty)
-                });
+                },
+                quote! { Default(_) },
+                quote! { Default(Default::default()) },
+            ),
+            None if cxt.config.union_impl_union => (
+                quote! {
+                    Default(#xdr_union_cond_type)
+                },
+                quote! { Default(_) },
+                quote! { Default(Default::default()) },
+            ),
+            None => (
+                quote! {
+                    Default
+                },
+                quote! { Default },
+                quote! { Default },
+            ),
+        };
 
-                default_value = Some(quote! { Default(Default::default()) });
-            }
-        } else if cxt.config.union_impl_union {
-            specs.push(quote! {
-                Default(#xdr_union_cond_type)
+        match bool_default {
+            // keep the order of values.
+            Some(false) => specs.insert(0, spec),
+            _ => specs.push(spec),
+        }
+
+        if let Some(v) = bool_default {
+            let index = i32::from(v);
+            xdr_indexer_name_by_index.push(quote! {
+                #index => Ok(stringify!(Default))
             });
 
-            default_value = Some(quote! { Default(Default::default()) });
-        } else {
-            specs.push(quote! {
-                Default
+            xdr_indexer_index.push(quote! {
+                #name_ident::#variant_arm => #index
             });
 
-            default_value = Some(quote! { Default });
+            xdr_union_name_by_value.push(quote! {
+                #v => Ok(stringify!(Default))
+            });
         }
+
+        default_value = Some(value);
     }
 
     let xdr_indexer = if cxt.config.union_impl_indexer {
-        let xdr_indexer_name_by_index_default_arm = if body.default.is_some() {
-            quote! { _ => Ok(stringify!(Default)), }
-        } else {
-            quote! { _ => Err(::serde_xdr::error::Error::Convert), }
-        };
+        let xdr_indexer_name_by_index_default_arm =
+            if body.default.is_some() && cond_type != &TypeSpecifier::Bool {
+                quote! { _ => Ok(stringify!(Default)), }
+            } else {
+                quote! { _ => Err(::serde_xdr::error::Error::Convert), }
+            };
 
-        let xdr_indexer_index_default_arm = if body.default.is_none() {
+        let xdr_indexer_index_default_arm = if body.default.is_none() || bool_default.is_some() {
             quote! {}
         } else {
             quote! { _ => unimplemented!(), }
@@ -766,9 +835,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     };
 
     let xdr_union = if cxt.config.union_impl_union {
-        let xdr_union_name_by_value_default_arm = if cond_type == &TypeSpecifier::Bool {
-            quote! {}
-        } else if body.default.is_some() {
+        let xdr_union_name_by_value_default_arm = if body.default.is_some() {
             quote! { _ => Ok(stringify!(Default)), }
         } else {
             quote! { _ => Err(::serde_xdr::error::Error::Convert), }
@@ -798,7 +865,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
         quote! { #[derive(Clone, Debug, Deserialize, Serialize)] }
     };
 
-    let default_value = default_value.unwrap();
+    let default_value = default_value.ok_or(Error::NotSupported)?;
     Ok(quote! {
         #derive
         pub enum #name_ident {
@@ -830,7 +897,7 @@ fn convert_constant_token(
             Ok(v) => (quote! { #v }, quote! { i32 }),
             // the name is not defined in this file.
             Err(Error::NotFountIdentifier(_)) => {
-                (convert_value_token::<u32>(value, false)?, quote! { u32 })
+                (convert_value_token::<u32>(value)?, quote! { u32 })
             }
             Err(e) => return Err(e),
         }
@@ -838,7 +905,7 @@ fn convert_constant_token(
 
     match value {
         Value::Identifier(i) if cxt.find_constant(i).is_some() => {
-            Ok((convert_value_token::<u32>(value, false)?, ty))
+            Ok((convert_value_token::<u32>(value)?, ty))
         }
         _ => Ok((literal, ty)),
     }
@@ -846,12 +913,12 @@ fn convert_constant_token(
 
 fn convert_length_token(value: &Value, cxt: &Context) -> Result<TokenStream, Error> {
     match value {
-        Value::Constant(_) => convert_value_token::<usize>(value, false),
+        Value::Constant(_) => convert_value_token::<usize>(value),
         Value::Identifier(i) => match cxt.resolve_name::<usize>(i) {
             Ok(v) if cxt.find_constant(i).is_none() => Ok(quote! { #v }),
             // the name may be not defined in this file.
             Ok(_) | Err(Error::NotFountIdentifier(_)) => {
-                let len = convert_value_token::<usize>(value, false)?;
+                let len = convert_value_token::<usize>(value)?;
                 Ok(quote! { #len as usize })
             }
             Err(e) => Err(e),
@@ -859,7 +926,7 @@ fn convert_length_token(value: &Value, cxt: &Context) -> Result<TokenStream, Err
     }
 }
 
-fn convert_value_token<'a, T>(value: &'a Value, cnv: bool) -> Result<TokenStream, Error>
+fn convert_value_token<'a, T>(value: &'a Value) -> Result<TokenStream, Error>
 where
     T: TryFrom<&'a Constant> + ToTokens,
 {
@@ -869,11 +936,7 @@ where
             Ok(quote! { #v })
         }
         Value::Identifier(i) => {
-            let v = if cnv {
-                upper_camel_case_ident(i)
-            } else {
-                constant_ident(i)
-            };
+            let v = constant_ident(i);
             Ok(quote! { #v })
         }
     }
@@ -971,7 +1034,11 @@ fn convert_case_token(
     ),
     Error,
 > {
-    let value = convert_value_token::<u32>(value, true)?;
+    let value = match value {
+        Value::Constant(c) => format_ident!("Case{}", c.value::<u32>()?),
+        Value::Identifier(i) => upper_camel_case_ident(i),
+    };
+    let value = quote! { #value };
     let cond_type = match convert_primitive_token(cond_type_spec, cxt) {
         Ok((ty, _)) => ty,
         _ => {
-- 
2.43.0


From be7c84626ad77e545f23e94c5aebd6bc15b0cd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:40 +0000
Subject: [PATCH 18/20] fix: the default of a union has a discriminant of its
 arm

In union mode the default value took the default of the discriminant's type,
which belongs to another arm or to none. A default arm that no value is left
for is no longer taken as default value.
---
 rpcgen/src/gen_code.rs | 96 +++++++++++++++++++++++++++++-------------
 1 file changed, 66 insertions(+), 30 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 15e4c1b..9ea38dd 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -99,7 +99,7 @@ impl Context {
             .flatten()
     }
 
-    fn enumerator_name(&self, enum_name: &str, index: u32) -> Result<&str, Error> {
+    fn enum_assigns(&self, enum_name: &str) -> impl Iterator<Item = &Assign> {
         self.typedefs
             .iter()
             .find_map(|(_, typedef)| match typedef {
@@ -108,6 +108,10 @@ impl Context {
             })
             .into_iter()
             .flatten()
+    }
+
+    fn enumerator_name(&self, enum_name: &str, index: u32) -> Result<&str, Error> {
+        self.enum_assigns(enum_name)
             .find(|a| matches!(self.resolve_value::<u32>(&a.value), Ok(v) if v == index))
             .map(|a| a.identifier.as_str())
             .ok_or(Error::NotSupported)
@@ -568,6 +572,8 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     let mut default_value = None;
     // value of bool that does not have `case`.
     let mut bool_default = None;
+    // values that have `case`.
+    let mut case_values: Vec<u32> = vec![];
     let name_ident = upper_camel_case_ident(name);
 
     let cond_type = match &body.cond {
@@ -595,6 +601,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     return Err(Error::NotSupported);
                 }
                 last = Some(eindex);
+                case_values.push(eindex);
 
                 if cond_type != &TypeSpecifier::Int(false) && i32::try_from(eindex).is_err() {
                     // could not be discriminant.
@@ -611,14 +618,22 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     }
                 }
 
+                let index = eindex as i32;
+                let discriminant = match cond_type {
+                    TypeSpecifier::Identifier(name) if cxt.is_enum_type(cond_type.clone()) => {
+                        enumerator_token(name, cxt.enumerator_name(name, eindex)?)
+                    }
+                    TypeSpecifier::Int(true) => quote! { #index },
+                    _ => quote! { #eindex },
+                };
+
                 let (variant, variant_arm, value, default, tmp_type) =
-                    convert_case_token(value_token, &decl, cond_type, cxt)?;
+                    convert_case_token(value_token, &decl, cond_type, &discriminant, cxt)?;
                 specs.push(value);
                 if default_value.is_none() {
                     default_value = Some(default);
                 }
 
-                let index = eindex as i32;
                 xdr_indexer_name_by_index.push(quote! {
                     #index => Ok(stringify!(#variant))
                 });
@@ -627,24 +642,9 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     #name_ident::#variant_arm => #index
                 });
 
-                if cxt.is_enum_type(cond_type.clone()) {
-                    if let TypeSpecifier::Identifier(cond_type) = cond_type {
-                        let cond_type_ident = upper_camel_case_ident(cond_type);
-                        let value = cxt.enumerator_name(cond_type, eindex)?;
-                        let value_ident = upper_camel_case_ident(value);
-                        xdr_union_name_by_value.push(quote! {
-                            #cond_type_ident::#value_ident => Ok(stringify!(#variant))
-                        });
-                    }
-                } else if cond_type == &TypeSpecifier::Int(true) {
-                    xdr_union_name_by_value.push(quote! {
-                        #index => Ok(stringify!(#variant))
-                    });
-                } else {
-                    xdr_union_name_by_value.push(quote! {
-                        #eindex => Ok(stringify!(#variant))
-                    });
-                }
+                xdr_union_name_by_value.push(quote! {
+                    #discriminant => Ok(stringify!(#variant))
+                });
 
                 sindex = eindex.saturating_add(1);
 
@@ -668,8 +668,13 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 Some(case) => {
                     let value = case.values.iter().find(|v| v.is_false()).unwrap();
 
-                    let (variant, variant_arm, value, default, _) =
-                        convert_case_token(value, &case.declaration, cond_type, cxt)?;
+                    let (variant, variant_arm, value, default, _) = convert_case_token(
+                        value,
+                        &case.declaration,
+                        cond_type,
+                        &quote! { false },
+                        cxt,
+                    )?;
                     specs.push(value);
                     if default_value.is_none() {
                         default_value = Some(default);
@@ -705,8 +710,13 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 Some(case) => {
                     let value = case.values.iter().find(|v| v.is_true()).unwrap();
 
-                    let (variant, variant_arm, value, default, _) =
-                        convert_case_token(value, &case.declaration, cond_type, cxt)?;
+                    let (variant, variant_arm, value, default, _) = convert_case_token(
+                        value,
+                        &case.declaration,
+                        cond_type,
+                        &quote! { true },
+                        cxt,
+                    )?;
                     specs.push(value);
                     if default_value.is_none() {
                         default_value = Some(default);
@@ -740,6 +750,23 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     }
 
     if let Some(default) = &body.default {
+        let discriminant = match cond_type {
+            TypeSpecifier::Bool => bool_default.map(|v| quote! { #v }),
+            TypeSpecifier::Identifier(name) if cxt.is_enum_type(cond_type.clone()) => cxt
+                .enum_assigns(name)
+                .find(|a| match cxt.resolve_value::<u32>(&a.value) {
+                    Ok(v) => !case_values.contains(&v),
+                    _ => true,
+                })
+                .map(|a| enumerator_token(name, &a.identifier)),
+            TypeSpecifier::Int(true) => (0..=i32::MAX)
+                .find(|i| !case_values.contains(&(*i as u32)))
+                .map(|i| quote! { #i }),
+            _ => (0..=u32::MAX)
+                .find(|i| !case_values.contains(i))
+                .map(|i| quote! { #i }),
+        };
+
         let (spec, variant_arm, value) = match convert_arm_token(default, cxt)? {
             Some((derive, v_ty)) if cxt.config.union_impl_union => (
                 quote! {
@@ -747,7 +774,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     Default(#xdr_union_cond_type, #v_ty)
                 },
                 quote! { Default(_, _) },
-                quote! { Default(Default::default(), Default::default()) },
+                quote! { Default(#discriminant, Default::default()) },
             ),
             Some((derive, v_ty)) => (
                 quote! {
@@ -762,7 +789,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     Default(#xdr_union_cond_type)
                 },
                 quote! { Default(_) },
-                quote! { Default(Default::default()) },
+                quote! { Default(#discriminant) },
             ),
             None => (
                 quote! {
@@ -794,7 +821,9 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             });
         }
 
-        default_value = Some(value);
+        if discriminant.is_some() {
+            default_value = Some(value);
+        }
     }
 
     let xdr_indexer = if cxt.config.union_impl_indexer {
@@ -1019,10 +1048,17 @@ fn convert_primitive_token(
     }
 }
 
+fn enumerator_token(enum_name: &str, enumerator_name: &str) -> TokenStream {
+    let enum_ident = upper_camel_case_ident(enum_name);
+    let enumerator_ident = upper_camel_case_ident(enumerator_name);
+    quote! { #enum_ident::#enumerator_ident }
+}
+
 fn convert_case_token(
     value: &Value,
     declaration: &Declaration,
     cond_type_spec: &TypeSpecifier,
+    discriminant: &TokenStream,
     cxt: &Context,
 ) -> Result<
     (
@@ -1065,7 +1101,7 @@ fn convert_case_token(
         };
 
         let default_token = if cxt.config.union_impl_union {
-            quote! { #value(Default::default(), Default::default()) }
+            quote! { #value(#discriminant, Default::default()) }
         } else {
             quote! { #value(Default::default()) }
         };
@@ -1079,7 +1115,7 @@ fn convert_case_token(
         ))
     } else if cxt.config.union_impl_union {
         let value_token = quote! { #value(#cond_type) };
-        let default_token = quote! { #value(Default::default()) };
+        let default_token = quote! { #value(#discriminant) };
         Ok((value.clone(), value, value_token, default_token, cond_type))
     } else {
         let value_token = quote! { #value };
-- 
2.43.0


From 0bbcdc744f838a441c6274667067ae0a91c65393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:40 +0000
Subject: [PATCH 19/20] fix: types that lead back to themselves are boxed

A struct or union that holds itself through another type, an alias or an arm
was generated with infinite size and did not compile.
---
 rpcgen/src/gen_code.rs | 104 +++++++++++++++++++++++++++++++++--------
 1 file changed, 85 insertions(+), 19 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 9ea38dd..e8ef947 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -71,6 +71,52 @@ impl Context {
         Err(Error::NotSupported)
     }
 
+    /// whether the declaration holds the type itself, so that the type would be infinite.
+    fn holds_type(&self, declaration: &Declaration, name: &str) -> bool {
+        let mut found = vec![];
+        self.find_held_types(declaration, true, &mut found);
+        found.iter().any(|n| n == name)
+    }
+
+    /// whether every value of the declaration has a value of the type.
+    fn requires_type(&self, declaration: &Declaration, name: &str) -> bool {
+        let mut found = vec![];
+        self.find_held_types(declaration, false, &mut found);
+        found.iter().any(|n| n == name)
+    }
+
+    fn find_held_types(&self, declaration: &Declaration, option: bool, found: &mut Vec<String>) {
+        let name = match declaration {
+            Declaration::Variable(TypeSpecifier::Identifier(name), _)
+            | Declaration::FixedArray(TypeSpecifier::Identifier(name), _, _) => name,
+            Declaration::OptionVariable(TypeSpecifier::Identifier(name), _) if option => name,
+            _ => return,
+        };
+
+        if found.contains(name) {
+            return;
+        }
+        found.push(name.clone());
+
+        match self.typedefs.iter().find(|(n, _)| n == name) {
+            Some((_, TypeDef::Declaration(next))) => self.find_held_types(next, option, found),
+            Some((_, TypeDef::Struct(_, declarations))) => {
+                for next in declarations {
+                    self.find_held_types(next, option, found);
+                }
+            }
+            Some((_, TypeDef::Union(_, body))) => {
+                for spec in &body.specs {
+                    self.find_held_types(&spec.declaration, option, found);
+                }
+                if let Some(next) = &body.default {
+                    self.find_held_types(next, option, found);
+                }
+            }
+            _ => {}
+        }
+    }
+
     fn find_constant(&self, name: &str) -> Option<&Value> {
         self.constants
             .iter()
@@ -543,8 +589,7 @@ fn convert_struct_token(
 
         let field_name_ident = snake_case_ident(field_name);
 
-        if struct_type == declaration.type_specifier() {
-            // TODO: Add nested structure support.
+        if struct_type == declaration.type_specifier() || cxt.holds_type(declaration, name) {
             ty = quote! { Box<#ty> };
         }
 
@@ -569,7 +614,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     let mut xdr_indexer_index = vec![];
     let mut xdr_union_name_by_value = vec![];
     let mut xdr_union_cond_type = None;
-    let mut default_value = None;
+    let mut default_value: Option<(TokenStream, bool)> = None;
     // value of bool that does not have `case`.
     let mut bool_default = None;
     // values that have `case`.
@@ -628,11 +673,9 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 };
 
                 let (variant, variant_arm, value, default, tmp_type) =
-                    convert_case_token(value_token, &decl, cond_type, &discriminant, cxt)?;
+                    convert_case_token(name, value_token, &decl, cond_type, &discriminant, cxt)?;
                 specs.push(value);
-                if default_value.is_none() {
-                    default_value = Some(default);
-                }
+                set_default_value(&mut default_value, default, &decl, name, cxt);
 
                 xdr_indexer_name_by_index.push(quote! {
                     #index => Ok(stringify!(#variant))
@@ -669,6 +712,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     let value = case.values.iter().find(|v| v.is_false()).unwrap();
 
                     let (variant, variant_arm, value, default, _) = convert_case_token(
+                        name,
                         value,
                         &case.declaration,
                         cond_type,
@@ -676,9 +720,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                         cxt,
                     )?;
                     specs.push(value);
-                    if default_value.is_none() {
-                        default_value = Some(default);
-                    }
+                    set_default_value(&mut default_value, default, &case.declaration, name, cxt);
 
                     xdr_indexer_name_by_index.push(quote! {
                         0i32 => Ok(stringify!(#variant))
@@ -711,6 +753,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     let value = case.values.iter().find(|v| v.is_true()).unwrap();
 
                     let (variant, variant_arm, value, default, _) = convert_case_token(
+                        name,
                         value,
                         &case.declaration,
                         cond_type,
@@ -718,9 +761,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                         cxt,
                     )?;
                     specs.push(value);
-                    if default_value.is_none() {
-                        default_value = Some(default);
-                    }
+                    set_default_value(&mut default_value, default, &case.declaration, name, cxt);
 
                     xdr_indexer_name_by_index.push(quote! {
                         1i32 => Ok(stringify!(#variant))
@@ -767,7 +808,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 .map(|i| quote! { #i }),
         };
 
-        let (spec, variant_arm, value) = match convert_arm_token(default, cxt)? {
+        let (spec, variant_arm, value) = match convert_arm_token(name, default, cxt)? {
             Some((derive, v_ty)) if cxt.config.union_impl_union => (
                 quote! {
                     #derive
@@ -821,8 +862,9 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             });
         }
 
-        if discriminant.is_some() {
-            default_value = Some(value);
+        if discriminant.is_some() && (default_value.is_none() || !cxt.requires_type(default, name))
+        {
+            default_value = Some((value, false));
         }
     }
 
@@ -894,7 +936,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
         quote! { #[derive(Clone, Debug, Deserialize, Serialize)] }
     };
 
-    let default_value = default_value.ok_or(Error::NotSupported)?;
+    let (default_value, _) = default_value.ok_or(Error::NotSupported)?;
     Ok(quote! {
         #derive
         pub enum #name_ident {
@@ -1055,6 +1097,7 @@ fn enumerator_token(enum_name: &str, enumerator_name: &str) -> TokenStream {
 }
 
 fn convert_case_token(
+    union_name: &str,
     value: &Value,
     declaration: &Declaration,
     cond_type_spec: &TypeSpecifier,
@@ -1087,7 +1130,7 @@ fn convert_case_token(
         }
     };
 
-    if let Some((derive, v_ty)) = convert_arm_token(declaration, cxt)? {
+    if let Some((derive, v_ty)) = convert_arm_token(union_name, declaration, cxt)? {
         let value_token = if cxt.config.union_impl_union {
             quote! {
                 #derive
@@ -1124,15 +1167,38 @@ fn convert_case_token(
     }
 }
 
+/// use the first arm, or the first one whose value is finite.
+fn set_default_value(
+    default_value: &mut Option<(TokenStream, bool)>,
+    value: TokenStream,
+    declaration: &Declaration,
+    union_name: &str,
+    cxt: &Context,
+) {
+    if let Some((_, false)) = default_value {
+        return;
+    }
+
+    let endless = cxt.requires_type(declaration, union_name);
+    if default_value.is_none() || !endless {
+        *default_value = Some((value, endless));
+    }
+}
+
 /// attribute and type of the arm.
 fn convert_arm_token(
+    union_name: &str,
     declaration: &Declaration,
     cxt: &Context,
 ) -> Result<Option<(TokenStream, TokenStream)>, Error> {
-    let Some((v_ty, opaque)) = convert_type_token(declaration, cxt)? else {
+    let Some((mut v_ty, opaque)) = convert_type_token(declaration, cxt)? else {
         return Ok(None);
     };
 
+    if cxt.holds_type(declaration, union_name) {
+        v_ty = quote! { Box<#v_ty> };
+    }
+
     Ok(Some(if cxt.config.union_complement_index() {
         match opaque {
             OpaqueType::Fixed => (quote! { #[serde(with = "serde_xdr::opaque::fixed")] }, v_ty),
-- 
2.43.0


From 21d55693d2a5017736b24cfb31e52b9402298d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:20 +0000
Subject: [PATCH 20/20] fix: types do not take names generated code uses itself

---
 rpcgen/src/gen_code.rs | 24 +++++++++++++++++-------
 rpcgen/src/keyword.rs  | 21 +++++++++++++++++++++
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index e8ef947..5a455a3 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -356,7 +356,7 @@ fn types_token(cxt: &Context) -> Result<Vec<TokenStream>, Error> {
                         return Err(Error::NotSupported);
                     }
 
-                    let name_ident = upper_camel_case_ident(name);
+                    let name_ident = type_ident(name);
                     results.push(quote! {
                         type #name_ident = #value;
                     });
@@ -386,7 +386,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
 
     indexed.sort_by_key(|i| i.0);
 
-    let name_ident = upper_camel_case_ident(name);
+    let name_ident = type_ident(name);
 
     let mut values = vec![];
     let mut as_ref_values = vec![];
@@ -599,7 +599,7 @@ fn convert_struct_token(
         });
     }
 
-    let name_ident = upper_camel_case_ident(name);
+    let name_ident = type_ident(name);
     Ok(quote! {
         #[derive(Clone, Debug, Default, Deserialize, Serialize)]
         pub struct #name_ident {
@@ -619,7 +619,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     let mut bool_default = None;
     // values that have `case`.
     let mut case_values: Vec<u32> = vec![];
-    let name_ident = upper_camel_case_ident(name);
+    let name_ident = type_ident(name);
 
     let cond_type = match &body.cond {
         Declaration::Variable(cond_type, _) => Ok(cond_type),
@@ -1091,7 +1091,7 @@ fn convert_primitive_token(
 }
 
 fn enumerator_token(enum_name: &str, enumerator_name: &str) -> TokenStream {
-    let enum_ident = upper_camel_case_ident(enum_name);
+    let enum_ident = type_ident(enum_name);
     let enumerator_ident = upper_camel_case_ident(enumerator_name);
     quote! { #enum_ident::#enumerator_ident }
 }
@@ -1241,7 +1241,7 @@ fn resolve_cond_type(cond_type: &TypeSpecifier, cxt: &Context) -> Result<TypeSpe
 
 fn resolve_type_token(value: &str, cxt: &Context) -> Result<(TokenStream, OpaqueType), Error> {
     if !cxt.config.remove_typedef {
-        let name = upper_camel_case_ident(value);
+        let name = type_ident(value);
         return Ok((quote! { #name }, OpaqueType::None));
     }
 
@@ -1252,7 +1252,7 @@ fn resolve_type_token(value: &str, cxt: &Context) -> Result<(TokenStream, Opaque
         return Ok((quote! { #value }, opaque));
     }
 
-    let name = upper_camel_case_ident(value);
+    let name = type_ident(value);
     Ok((quote! { #name }, OpaqueType::None))
 }
 
@@ -1281,6 +1281,16 @@ fn upper_camel_case_ident(value: &str) -> Ident {
     ident(&upper_camel_case(value), value)
 }
 
+fn type_ident(value: &str) -> Ident {
+    let name = upper_camel_case(value);
+    if keyword::rust_type(&name) {
+        // generated code refers to the type of the same name.
+        return format_ident!("{}_", name);
+    }
+
+    ident(&name, value)
+}
+
 fn constant_ident(value: &str) -> Ident {
     ident(value, value)
 }
diff --git a/rpcgen/src/keyword.rs b/rpcgen/src/keyword.rs
index 064090d..a1036c0 100644
--- a/rpcgen/src/keyword.rs
+++ b/rpcgen/src/keyword.rs
@@ -59,6 +59,23 @@ const KEYWORDS_RUST: &[&str] = &[
     "yield",
 ];
 
+// types and traits that generated code uses without path.
+#[rustfmt::skip]
+const TYPES_RUST: &[&str] = &[
+    "AsRef",
+    "Box",
+    "Default",
+    "Deserialize",
+    "Option",
+    "Result",
+    "Serialize",
+    "String",
+    "TryFrom",
+    "Vec",
+    "XdrIndexer",
+    "XdrUnion",
+];
+
 // https://datatracker.ietf.org/doc/html/rfc4506#section-6.4
 const KEYWORDS_XDR: &[&str] = &[
     "bool",
@@ -89,6 +106,10 @@ pub fn rust_reserved(keyword: &str) -> bool {
     KEYWORDS_RUST.contains(&keyword)
 }
 
+pub fn rust_type(name: &str) -> bool {
+    TYPES_RUST.contains(&name)
+}
+
 pub fn xdr_reserved(keyword: &str) -> bool {
     KEYWORDS_XDR.contains(&keyword)
 }
-- 
2.43.0

