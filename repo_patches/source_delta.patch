From 1b97791e9eb325181910aa588a440bf6c8a96bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:25 +0000
Subject: [PATCH 01/33] fix: generate WSDL port types in a deterministic order

---
 wsdl-parser/src/generator/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index fe1858f..e6aaad3 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -10,7 +10,11 @@ pub mod function;
 pub fn generate(definitions: &Definitions) -> String {
     let mut res = vec![];
 
-    for port_type in definitions.port_types().values() {
+    // The map iterates in a different order on every run; the generated code must not.
+    let mut port_types = definitions.port_types().values().collect::<Vec<_>>();
+    port_types.sort_by_key(|port_type| port_type.name());
+
+    for port_type in port_types {
         for op in port_type.operations() {
             let func = Function::new(op, definitions);
             res.push(generate_function(&func, definitions.target_namespace()));
-- 
2.43.0


From 46f3324e900c4fe8756c30cad9fbd427baab54e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:06 +0000
Subject: [PATCH 02/33] fix: report stream errors instead of reading an empty
 element

---
 xsd-types/src/utils/yaserde.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/xsd-types/src/utils/yaserde.rs b/xsd-types/src/utils/yaserde.rs
index 6af7592..1db38bc 100644
--- a/xsd-types/src/utils/yaserde.rs
+++ b/xsd-types/src/utils/yaserde.rs
@@ -39,9 +39,8 @@ pub fn deserialize<S, R: Read>(
         return Err("Start element not found".to_string());
     }
 
-    if let Ok(xml::reader::XmlEvent::Characters(ref text)) = reader.peek() {
-        de_fn(text)
-    } else {
-        de_fn("")
+    match reader.peek()? {
+        xml::reader::XmlEvent::Characters(ref text) => de_fn(text),
+        _ => de_fn(""),
     }
 }
-- 
2.43.0


From 10ffbef612052dd51b797dd24c4eec4915a25ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 03/33] fix: write decimals without exponent and refuse
 exponents

---
 xsd-types/src/types/decimal.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/decimal.rs b/xsd-types/src/types/decimal.rs
index c5fcd6c..00f7864 100644
--- a/xsd-types/src/types/decimal.rs
+++ b/xsd-types/src/types/decimal.rs
@@ -1,6 +1,6 @@
 use std::{fmt, str::FromStr};
 
-use bigdecimal::{BigDecimal, ParseBigDecimalError};
+use bigdecimal::{num_bigint::Sign, BigDecimal, ParseBigDecimalError};
 use xsd_macro_utils::UtilsDefaultSerde;
 
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
@@ -20,13 +20,31 @@ impl FromStr for Decimal {
     type Err = ParseBigDecimalError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        // BigDecimal accepts exponents, xs:decimal doesn't have them.
+        if s.contains(['e', 'E']) {
+            return Err(ParseBigDecimalError::Other("exponent in decimal".to_string()));
+        }
+
         Ok(Decimal(BigDecimal::from_str(s)?))
     }
 }
 
 impl fmt::Display for Decimal {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.0)
+        // BigDecimal writes exponents for some values, xs:decimal doesn't have them.
+        let (value, scale) = self.0.as_bigint_and_exponent();
+        let sign = if value.sign() == Sign::Minus { "-" } else { "" };
+        let mut digits = value.magnitude().to_string();
+
+        if scale > 0 {
+            let scale = scale as usize;
+            digits = format!("{:0>1$}", digits, scale + 1);
+            digits.insert(digits.len() - scale, '.');
+        } else if value.sign() != Sign::NoSign {
+            digits.push_str(&"0".repeat(scale.unsigned_abs() as usize));
+        }
+
+        write!(f, "{}{}", sign, digits)
     }
 }
 
-- 
2.43.0


From fd48f8a3e29c6fd203c9480ed01e86cd0ad6fcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 04/33] fix: parse every duration exactly or refuse it

---
 xsd-types/src/types/duration.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index e352b9c..c337c91 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -79,7 +79,7 @@ impl FromStr for Duration {
                 return Err("No value is specified for seconds, so 'S' must not be present");
             }
 
-            if context.is_dot_found && context.denom == 1 {
+            if context.is_dot_found && context.fraction.is_empty() {
                 return Err("At least one digit must follow the decimal point if it appears");
             }
 
@@ -87,7 +87,9 @@ impl FromStr for Duration {
                 return Err("Bad order of duration components");
             }
 
-            *seconds = context.number as f64 + context.numer as f64 / context.denom as f64;
+            *seconds = format!("{}.{}", context.number, context.fraction)
+                .parse::<f64>()
+                .map_err(|_| "Bad value of seconds")?;
             context.last_filled_component = 6;
             context.number = 0;
             context.is_number_empty = true;
@@ -176,14 +178,13 @@ impl FromStr for Duration {
                     }
 
                     if context.is_dot_found {
-                        context.numer *= 10;
-                        context.numer +=
-                            digit.to_digit(10).expect("error converting a digit") as u64;
-                        context.denom *= 10;
+                        context.fraction.push(digit);
                     } else {
-                        context.number *= 10;
-                        context.number +=
-                            digit.to_digit(10).expect("error converting a digit") as u64;
+                        context.number = context
+                            .number
+                            .checked_mul(10)
+                            .and_then(|n| n.checked_add(digit.to_digit(10)? as u64))
+                            .ok_or("Too big number")?;
                         context.is_number_empty = false;
                     }
                 }
@@ -261,9 +262,7 @@ struct ParsingContext {
     is_number_empty: bool,
 
     is_dot_found: bool,
-    // Numerator and denominator of seconds fraction part.
-    numer: u64,
-    denom: u64,
+    fraction: String, // Digits of seconds fraction part.
 }
 
 impl ParsingContext {
@@ -277,8 +276,7 @@ impl ParsingContext {
             is_number_empty: true,
 
             is_dot_found: false,
-            numer: 0,
-            denom: 1,
+            fraction: String::new(),
         }
     }
 }
-- 
2.43.0


From c2a23368dbed4fe58f44b27319bffe0290576d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 05/33] fix: keep fractional seconds of times

---
 xsd-types/src/types/time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/time.rs b/xsd-types/src/types/time.rs
index baa2d26..54c42c0 100644
--- a/xsd-types/src/types/time.rs
+++ b/xsd-types/src/types/time.rs
@@ -32,7 +32,7 @@ impl FromStr for Time {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_naive_time(s: &str) -> Result<NaiveTime, String> {
-            NaiveTime::parse_from_str(s, "%H:%M:%S").map_err(|e| e.to_string())
+            NaiveTime::parse_from_str(s, "%H:%M:%S%.f").map_err(|e| e.to_string())
         }
 
         if let Some(s) = s.strip_suffix('Z') {
@@ -76,7 +76,7 @@ impl FromStr for Time {
 
 impl fmt::Display for Time {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let fmt = StrftimeItems::new("%H:%M:%S");
+        let fmt = StrftimeItems::new("%H:%M:%S%.f");
         match self.timezone {
             Some(tz) => write!(f, "{}{}", self.value.format_with_items(fmt.clone()), tz),
             None => write!(f, "{}", self.value.format_with_items(fmt.clone())),
-- 
2.43.0


From 3dbf23baa6050f37ee59c9a7de3455ee57cdc692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 06/33] fix: accept -0 as a non-negative integer

---
 xsd-types/src/types/non_negative_integer.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/xsd-types/src/types/non_negative_integer.rs b/xsd-types/src/types/non_negative_integer.rs
index 044781a..b64d8af 100644
--- a/xsd-types/src/types/non_negative_integer.rs
+++ b/xsd-types/src/types/non_negative_integer.rs
@@ -1,6 +1,6 @@
 use std::{fmt, str::FromStr};
 
-use num_bigint::{BigUint, ToBigUint};
+use num_bigint::{BigInt, BigUint, ToBigUint};
 use xsd_macro_utils::UtilsDefaultSerde;
 
 // https://www.w3.org/TR/xmlschema-2/#nonNegativeInteger
@@ -23,11 +23,11 @@ impl FromStr for NonNegativeInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigUint::from_str(s).map_err(|e| e.to_string())?;
-        if value < 0.to_biguint().unwrap() {
-            Err("Bad value for NonNegativeInteger".to_string())
-        } else {
-            Ok(NonNegativeInteger(value))
+        // "-0" is valid, so a sign has to be parsed.
+        let value = BigInt::from_str(s).map_err(|e| e.to_string())?;
+        match value.to_biguint() {
+            Some(value) => Ok(NonNegativeInteger(value)),
+            None => Err("Bad value for NonNegativeInteger".to_string()),
         }
     }
 }
-- 
2.43.0


From cbf5a5a1ae2aeddfdb4b01e3550a422655b1547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 07/33] fix: refuse malformed gDay, gMonth, gMonthDay and time
 zones instead of panicking

---
 xsd-types/src/types/gday.rs      | 2 +-
 xsd-types/src/types/gmonth.rs    | 2 +-
 xsd-types/src/types/gmonthday.rs | 2 +-
 xsd-types/src/types/utils.rs     | 3 ++-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/xsd-types/src/types/gday.rs b/xsd-types/src/types/gday.rs
index 74fcfe4..e7e050a 100644
--- a/xsd-types/src/types/gday.rs
+++ b/xsd-types/src/types/gday.rs
@@ -31,7 +31,7 @@ impl FromStr for GDay {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<i32, String> {
-            if s.len() != 5 || &s[0..3] != "---" {
+            if !s.is_ascii() || s.len() != 5 || &s[0..3] != "---" {
                 return Err("bad gDay format".to_string());
             }
             let token = &s[3..5];
diff --git a/xsd-types/src/types/gmonth.rs b/xsd-types/src/types/gmonth.rs
index 2ce2ca3..eb714e8 100644
--- a/xsd-types/src/types/gmonth.rs
+++ b/xsd-types/src/types/gmonth.rs
@@ -31,7 +31,7 @@ impl FromStr for GMonth {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<i32, String> {
-            if s.len() != 4 || &s[0..2] != "--" {
+            if !s.is_ascii() || s.len() != 4 || &s[0..2] != "--" {
                 return Err("bad gMonth format".to_string());
             }
             let token = &s[2..4];
diff --git a/xsd-types/src/types/gmonthday.rs b/xsd-types/src/types/gmonthday.rs
index 183c96a..2dfe516 100644
--- a/xsd-types/src/types/gmonthday.rs
+++ b/xsd-types/src/types/gmonthday.rs
@@ -50,7 +50,7 @@ impl FromStr for GMonthDay {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_value(s: &str) -> Result<(i32, i32), String> {
-            if s.len() != 7 || &s[0..2] != "--" || &s[4..5] != "-" {
+            if !s.is_ascii() || s.len() != 7 || &s[0..2] != "--" || &s[4..5] != "-" {
                 return Err("bad gMonthDay format".to_string());
             }
 
diff --git a/xsd-types/src/types/utils.rs b/xsd-types/src/types/utils.rs
index bb4dc88..f0a1165 100644
--- a/xsd-types/src/types/utils.rs
+++ b/xsd-types/src/types/utils.rs
@@ -6,7 +6,8 @@ pub fn parse_timezone(s: &str) -> Result<FixedOffset, String> {
         return Ok(FixedOffset::east_opt(0).unwrap());
     }
 
-    let tokens: Vec<&str> = s[1..].split(':').collect();
+    let offset = s.get(1..).ok_or("bad timezone format")?;
+    let tokens: Vec<&str> = offset.split(':').collect();
     if tokens.len() != 2 || tokens[0].len() != 2 || tokens[1].len() != 2 {
         return Err("bad timezone format".to_string());
     }
-- 
2.43.0


From ba14cdb0c3d2ffdef093e7e59133401a9ba8988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 08/33] fix: leave the parsed schema unchanged when generating
 struct fields

---
 xsd-parser/src/generator/struct.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xsd-parser/src/generator/struct.rs b/xsd-parser/src/generator/struct.rs
index af01513..cd1c436 100644
--- a/xsd-parser/src/generator/struct.rs
+++ b/xsd-parser/src/generator/struct.rs
@@ -21,17 +21,17 @@ pub trait StructGenerator {
     fn fields(&self, entity: &Struct, gen: &Generator) -> String {
         let mod_name = self.mod_name(entity, gen);
 
-        entity.fields.borrow_mut().iter_mut().for_each(|f| {
-            if !f.subtypes.is_empty() {
-                f.type_name = format!("{}::{}", mod_name, f.type_name)
-            }
-        });
-
         let fields = entity
             .fields
             .borrow()
             .iter()
-            .map(|f| gen.struct_field_gen().generate(f, gen))
+            .cloned()
+            .map(|mut f| {
+                if !f.subtypes.is_empty() {
+                    f.type_name = format!("{}::{}", mod_name, f.type_name)
+                }
+                gen.struct_field_gen().generate(&f, gen)
+            })
             .filter(|s| !s.is_empty())
             .collect::<Vec<String>>()
             .join("\n\n");
-- 
2.43.0


From 36a03fc22b52c3bd500d1fb994296329ce958a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:00 +0000
Subject: [PATCH 09/33] fix: minOccurs=0 with maxOccurs=1 makes an element
 optional

element_modifier treated an explicit maxOccurs="1" as required, so documents
without the element were not representable and it was always written.
---
 xsd-parser/src/parser/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 19d5cbd..6118d7d 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -150,7 +150,7 @@ pub fn element_modifier(node: &Node) -> TypeModifier {
                 if val > 1 {
                     TypeModifier::Array
                 } else {
-                    TypeModifier::None
+                    TypeModifier::Option
                 }
             }
         },
-- 
2.43.0


From fd4de180f307d7aec843d3fbbd7906616d56d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:01 +0000
Subject: [PATCH 10/33] fix: exchange a choice as its own elements in the
 target namespace

A choice inside a sequence was generated as a child element named after the
Rust enum, and the variants of a choice were written without the target
namespace, so neither side could read documents of the schema.
---
 xsd-parser/src/generator/enum_case.rs | 5 +++++
 xsd-parser/src/parser/utils.rs        | 8 ++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/xsd-parser/src/generator/enum_case.rs b/xsd-parser/src/generator/enum_case.rs
index a5580db..846550e 100644
--- a/xsd-parser/src/generator/enum_case.rs
+++ b/xsd-parser/src/generator/enum_case.rs
@@ -43,6 +43,11 @@ pub trait EnumCaseGenerator {
         }
 
         let (prefix, field_name) = split_name(entity.name.as_str());
+        let tns = gen.target_ns.borrow();
+        let prefix = match entity.source {
+            EnumSource::Choice => prefix.or_else(|| tns.as_ref().and_then(|ns| ns.name())),
+            _ => prefix,
+        };
         match prefix {
             Some(p) => format!(
                 "{indent}#[yaserde(prefix = \"{prefix}\", rename = \"{rename}\")]\n",
diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 4f35e01..1e9c92d 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -5,7 +5,7 @@ use roxmltree::{Namespace, Node};
 use crate::parser::{
     constants::attribute,
     node_parser::parse_node,
-    types::{Alias, Enum, RsEntity, StructField, StructFieldSource},
+    types::{Alias, Enum, EnumSource, RsEntity, StructField, StructFieldSource},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -69,11 +69,15 @@ pub fn attribute_groups_to_aliases(node: &Node) -> Vec<Alias> {
 }
 
 pub fn enum_to_field(en: Enum) -> StructField {
+    let source = match en.source {
+        EnumSource::Choice => StructFieldSource::Choice,
+        _ => StructFieldSource::Element,
+    };
     StructField {
         name: en.name.clone(),
         type_name: en.name.clone(),
         subtypes: vec![RsEntity::Enum(en)],
-        source: StructFieldSource::Element,
+        source,
         ..Default::default()
     }
 }
-- 
2.43.0


From d72ffe2629cef61118667f1ae47b8744243ec277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:16 +0000
Subject: [PATCH 11/33] fix: keep attribute groups and choices next to other
 content

The attributes of a group were dropped when the type had content; in an
extension a group or attribute after the content replaced it, and a choice
was dropped.
---
 xsd-parser/src/parser/complex_type.rs |  1 +
 xsd-parser/src/parser/extension.rs    | 31 +++++++++++++++------------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/xsd-parser/src/parser/complex_type.rs b/xsd-parser/src/parser/complex_type.rs
index bed4dcc..2dbcd23 100644
--- a/xsd-parser/src/parser/complex_type.rs
+++ b/xsd-parser/src/parser/complex_type.rs
@@ -54,6 +54,7 @@ pub fn parse_complex_type(node: &Node, parent: &Node) -> RsEntity {
     match &mut res {
         RsEntity::Struct(st) => {
             st.fields.borrow_mut().append(&mut fields);
+            st.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
             st.name = name.to_string();
         }
         RsEntity::Enum(en) => {
diff --git a/xsd-parser/src/parser/extension.rs b/xsd-parser/src/parser/extension.rs
index 1341b5a..f85a446 100644
--- a/xsd-parser/src/parser/extension.rs
+++ b/xsd-parser/src/parser/extension.rs
@@ -6,14 +6,15 @@ use crate::parser::{
     constants::{attribute, tag},
     node_parser::parse_node,
     types::{RsEntity, Struct, StructField, StructFieldSource},
-    utils::{attribute_groups_to_aliases, attributes_to_fields, get_base, get_documentation},
+    utils::{
+        attribute_groups_to_aliases, attributes_to_fields, enum_to_field, get_base,
+        get_documentation, get_parent_name,
+    },
     xsd_elements::{ElementType, ExtensionType, XsdNode},
 };
 
-const AVAILABLE_CONTENT_TYPES: [ElementType; 6] = [
+const AVAILABLE_CONTENT_TYPES: [ElementType; 4] = [
     ElementType::All, // Not presented in ONVIF
-    ElementType::Attribute,
-    ElementType::AttributeGroup,
     ElementType::Choice,
     ElementType::Group, // Not presented in ONVIF
     ElementType::Sequence,
@@ -64,19 +65,21 @@ fn complex_content_extension(node: &Node) -> RsEntity {
 
     let content = node
         .children()
-        .filter(|n| {
-            n.is_element()
-                && n.xsd_type() != ElementType::Attribute
-                && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type())
-        })
+        .filter(|n| n.is_element() && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type()))
         .last();
 
     if let Some(cont) = content {
-        let mut res = parse_node(&cont, node);
-        if let RsEntity::Struct(s) = &mut res {
-            s.fields.borrow_mut().append(&mut fields);
-            s.comment = get_documentation(node);
-            return res;
+        match parse_node(&cont, node) {
+            RsEntity::Struct(s) => {
+                s.fields.borrow_mut().append(&mut fields);
+                s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
+                return RsEntity::Struct(Struct { comment: get_documentation(node), ..s });
+            }
+            RsEntity::Enum(mut en) => {
+                en.name = format!("{}Choice", get_parent_name(node));
+                fields.insert(0, enum_to_field(en));
+            }
+            _ => (),
         }
     }
 
-- 
2.43.0


From db680a8b6f87bf7dfcfd4ad79409a4b44f5fc082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 12/33] fix: generate the struct of an anonymous type whose
 content is a choice

Naming such a type renamed the enum of its variants only, so the element got
the enum as its type, without its attributes, or code that does not compile.
---
 xsd-parser/src/parser/complex_type.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/complex_type.rs b/xsd-parser/src/parser/complex_type.rs
index 2dbcd23..27ab6cf 100644
--- a/xsd-parser/src/parser/complex_type.rs
+++ b/xsd-parser/src/parser/complex_type.rs
@@ -6,7 +6,8 @@ use crate::parser::{
     node_parser::parse_node,
     types::{RsEntity, Struct, StructField, StructFieldSource},
     utils::{
-        attribute_groups_to_aliases, attributes_to_fields, get_documentation, get_parent_name,
+        attribute_groups_to_aliases, attributes_to_fields, enum_to_field, get_documentation,
+        get_parent_name,
     },
     xsd_elements::{ElementType, XsdNode},
 };
@@ -59,6 +60,17 @@ pub fn parse_complex_type(node: &Node, parent: &Node) -> RsEntity {
         }
         RsEntity::Enum(en) => {
             en.name = format!("{}Choice", name);
+            if parent.xsd_type() != ElementType::Schema {
+                // The element this type belongs to names it, see set_name
+                fields.push(enum_to_field(en.clone()));
+                return RsEntity::Struct(Struct {
+                    name: name.to_string(),
+                    subtypes: vec![],
+                    comment: get_documentation(node),
+                    fields: RefCell::new(fields),
+                    attribute_groups: RefCell::new(attribute_groups_to_aliases(node)),
+                });
+            }
             fields.push(StructField {
                 name: en.name.clone(),
                 type_name: en.name.clone(),
-- 
2.43.0


From 4a87f6bf5b6dee741a998c5a349f20b234cfdaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:19 +0000
Subject: [PATCH 13/33] fix: inherit from bases declared later and keep fields
 named base

A type derived from a type declared after it lost everything its base inherits
itself, and elements or attributes named "base" were dropped as if they were
the marker of an extension.
---
 xsd-parser/src/parser/types.rs | 46 +++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 1a88243..2a766da 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -2,7 +2,7 @@ use std::{cell::RefCell, collections::HashMap};
 
 use roxmltree::Namespace;
 
-use crate::parser::{constants::tag, xsd_elements::FacetType};
+use crate::parser::xsd_elements::FacetType;
 
 #[derive(Debug, Clone, Default)]
 pub struct RsFile<'input> {
@@ -38,24 +38,25 @@ impl Struct {
     pub fn extend_base(&self, types: &HashMap<&String, &Self>) {
         self.fields.borrow_mut().iter_mut().for_each(|f| f.extend_base(types));
 
-        let mut fields = self
-            .fields
-            .borrow()
-            .iter()
-            .filter(|f| f.name.as_str() == tag::BASE)
-            .flat_map(|f| {
-                let key = f.type_name.split(':').last().unwrap().to_string();
-                types.get(&key).map(|s| s.fields.borrow().clone()).unwrap_or_default()
-            })
-            .filter(|f| {
+        // A base may be declared after the types derived from it, so the whole
+        // chain of bases is followed here.
+        let mut visited = vec![self as *const Self];
+        while let Some(base) = self.take_base() {
+            let key = base.type_name.split(':').last().unwrap().to_string();
+            let base = match types.get(&key) {
+                Some(base) if !visited.contains(&(*base as *const Self)) => *base,
+                _ => continue,
+            };
+            visited.push(base);
+
+            let mut fields = base.fields.borrow().clone();
+            fields.retain(|f| {
                 //TODO: remove this workaround for fields names clash
-                !self.fields.borrow().iter().any(|field| field.name == f.name)
-            })
-            .collect::<Vec<StructField>>();
-
-        self.fields.borrow_mut().append(&mut fields);
-
-        self.fields.borrow_mut().retain(|field| field.name.as_str() != tag::BASE);
+                f.is_base() || !self.fields.borrow().iter().any(|field| field.name == f.name)
+            });
+            fields.iter_mut().for_each(|f| f.extend_base(types));
+            self.fields.borrow_mut().append(&mut fields);
+        }
 
         for subtype in &self.subtypes {
             if let RsEntity::Struct(s) = subtype {
@@ -64,6 +65,11 @@ impl Struct {
         }
     }
 
+    fn take_base(&self) -> Option<StructField> {
+        let mut fields = self.fields.borrow_mut();
+        fields.iter().position(StructField::is_base).map(|i| fields.remove(i))
+    }
+
     pub fn extend_attribute_group(&self, types: &HashMap<&String, &Self>) {
         let mut fields = self
             .attribute_groups
@@ -90,6 +96,10 @@ pub struct StructField {
 }
 
 impl StructField {
+    fn is_base(&self) -> bool {
+        matches!(self.source, StructFieldSource::Base)
+    }
+
     pub fn extend_base(&mut self, types: &HashMap<&String, &Struct>) {
         for subtype in &mut self.subtypes {
             if let RsEntity::Struct(st) = subtype {
-- 
2.43.0


From 6b6aeb47d977998a9a8813e2d687294e08345039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:21 +0000
Subject: [PATCH 14/33] fix: resolve attribute groups of every kind of type

References from anonymous types, types with a choice and other groups, and
those of a base declared after the derived type, were dropped. Types and
groups of the same name were confused.
---
 xsd-parser/src/parser/attribute_group.rs |  3 +-
 xsd-parser/src/parser/mod.rs             | 29 +++++++-------
 xsd-parser/src/parser/types.rs           | 48 ++++++++++++++++++------
 3 files changed, 51 insertions(+), 29 deletions(-)

diff --git a/xsd-parser/src/parser/attribute_group.rs b/xsd-parser/src/parser/attribute_group.rs
index 4704b80..b21351f 100644
--- a/xsd-parser/src/parser/attribute_group.rs
+++ b/xsd-parser/src/parser/attribute_group.rs
@@ -3,7 +3,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{Alias, RsEntity, Struct, StructField},
-    utils::get_documentation,
+    utils::{attribute_groups_to_aliases, get_documentation},
     xsd_elements::{ElementType, XsdNode},
 };
 
@@ -31,6 +31,7 @@ fn parse_global_attribute_group(node: &Node) -> RsEntity {
     RsEntity::Struct(Struct {
         name: name.to_string(),
         fields: std::cell::RefCell::new(fields),
+        attribute_groups: std::cell::RefCell::new(attribute_groups_to_aliases(node)),
         ..Default::default()
     })
 }
diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index e03275f..c62df1b 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -36,27 +36,24 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     let doc = roxmltree::Document::parse(text).expect("Parse document error");
     let root = doc.root();
 
-    let mut map = HashMap::new();
-
     let schema =
         root.children().filter(|e| e.is_element()).last().expect("Schema element is required");
 
     let schema_rs = parse_schema(&schema);
-    for ty in &schema_rs.types {
-        if let RsEntity::Struct(st) = ty {
-            map.extend(st.get_types_map());
-        }
-    }
-    for ag in &schema_rs.attribute_groups {
-        if let RsEntity::Struct(st) = ag {
-            map.extend(st.get_types_map());
-        }
+    let structs = schema_rs.types.iter().flat_map(RsEntity::structs).collect::<Vec<_>>();
+    let types = structs.iter().flat_map(|st| st.get_types_map()).collect::<HashMap<_, _>>();
+    let groups = schema_rs
+        .attribute_groups
+        .iter()
+        .flat_map(RsEntity::structs)
+        .map(|group| (&group.name, group))
+        .collect::<HashMap<_, _>>();
+
+    for st in &structs {
+        st.extend_attribute_group(&groups);
     }
-    for ty in &schema_rs.types {
-        if let RsEntity::Struct(st) = ty {
-            st.extend_base(&map);
-            st.extend_attribute_group(&map);
-        }
+    for st in &structs {
+        st.extend_base(&types);
     }
 
     Ok(schema_rs)
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 2a766da..08264c9 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -70,18 +70,32 @@ impl Struct {
         fields.iter().position(StructField::is_base).map(|i| fields.remove(i))
     }
 
-    pub fn extend_attribute_group(&self, types: &HashMap<&String, &Self>) {
-        let mut fields = self
-            .attribute_groups
-            .borrow()
-            .iter()
-            .flat_map(|f| {
-                let key = f.original.split(':').last().unwrap().to_string();
-                types.get(&key).map(|s| s.fields.borrow().clone()).unwrap_or_default()
-            })
-            .collect::<Vec<StructField>>();
-
-        self.fields.borrow_mut().append(&mut fields);
+    pub fn extend_attribute_group(&self, groups: &HashMap<&String, &Self>) {
+        for field in self.fields.borrow().iter() {
+            for subtype in &field.subtypes {
+                subtype.structs().iter().for_each(|s| s.extend_attribute_group(groups));
+            }
+        }
+        for subtype in &self.subtypes {
+            subtype.structs().iter().for_each(|s| s.extend_attribute_group(groups));
+        }
+
+        // Groups may refer to other groups
+        let mut references = self.attribute_groups.borrow().clone();
+        let mut visited = vec![];
+        let mut i = 0;
+        while i < references.len() {
+            let key = references[i].original.split(':').last().unwrap().to_string();
+            i += 1;
+            match groups.get(&key) {
+                Some(group) if !visited.contains(&key) => {
+                    self.fields.borrow_mut().extend(group.fields.borrow().iter().cloned());
+                    references.extend(group.attribute_groups.borrow().iter().cloned());
+                    visited.push(key);
+                }
+                _ => (),
+            }
+        }
     }
 }
 
@@ -202,6 +216,16 @@ pub enum RsEntity {
 }
 
 impl RsEntity {
+    /// The struct this entity is generated as, if any: a type whose content is
+    /// a choice is an enum that carries its struct as a subtype.
+    pub fn structs(&self) -> Vec<&Struct> {
+        match self {
+            RsEntity::Struct(st) => vec![st],
+            RsEntity::Enum(en) => en.subtypes.iter().flat_map(Self::structs).collect(),
+            _ => vec![],
+        }
+    }
+
     pub fn name(&self) -> &str {
         use RsEntity::*;
         match self {
-- 
2.43.0


From 62c0adc60e903e09034d9eebc8d909ad9d5d6ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:55 +0000
Subject: [PATCH 15/33] fix: exchange documents of a schema whose target
 namespace is the default one

---
 xsd-parser/src/generator/default.rs   |  4 ++--
 xsd-parser/src/generator/enum.rs      | 21 +++++++--------------
 xsd-parser/src/generator/enum_case.rs |  8 ++++++--
 xsd-parser/src/generator/struct.rs    | 21 +++++++--------------
 xsd-parser/src/generator/utils.rs     |  6 ++++++
 5 files changed, 28 insertions(+), 32 deletions(-)

diff --git a/xsd-parser/src/generator/default.rs b/xsd-parser/src/generator/default.rs
index 35bae27..06648a5 100644
--- a/xsd-parser/src/generator/default.rs
+++ b/xsd-parser/src/generator/default.rs
@@ -4,7 +4,7 @@ use inflector::cases::{pascalcase::to_pascal_case, snakecase::to_snake_case};
 use roxmltree::Namespace;
 
 use crate::{
-    generator::utils::{filter_type_name, sanitize, split_comment_line, split_name},
+    generator::utils::{filter_type_name, sanitize, split_comment_line, split_name, target_prefix},
     parser::types::TypeModifier,
 };
 
@@ -85,7 +85,7 @@ pub fn yaserde_for_element(
     let (prefix, field_name) = if let Some(index) = name.find(':') {
         (Some(&name[0..index]), &name[index + 1..])
     } else {
-        (target_namespace.and_then(|ns| ns.name()), name)
+        (target_namespace.map(target_prefix), name)
     };
 
     match prefix {
diff --git a/xsd-parser/src/generator/enum.rs b/xsd-parser/src/generator/enum.rs
index 449d1b7..952e378 100644
--- a/xsd-parser/src/generator/enum.rs
+++ b/xsd-parser/src/generator/enum.rs
@@ -1,7 +1,7 @@
 use std::borrow::Cow;
 
 use crate::{
-    generator::{validator::gen_validate_impl, Generator},
+    generator::{utils::target_prefix, validator::gen_validate_impl, Generator},
     parser::types::{Enum, EnumSource},
 };
 
@@ -68,19 +68,12 @@ pub trait EnumGenerator {
         let derives = "#[derive(PartialEq, Debug, Clone, YaSerialize, YaDeserialize)]";
         let tns = gen.target_ns.borrow();
         match tns.as_ref() {
-            Some(tn) => match tn.name() {
-                Some(name) => format!(
-                    "{derives}#[yaserde(prefix = \"{prefix}\", namespace = \"{prefix}: {uri}\")]\n",
-                    derives = derives,
-                    prefix = name,
-                    uri = tn.uri()
-                ),
-                None => format!(
-                    "{derives}#[yaserde(namespace = \"{uri}\")]\n",
-                    derives = derives,
-                    uri = tn.uri()
-                ),
-            },
+            Some(tn) => format!(
+                "{derives}#[yaserde(prefix = \"{prefix}\", namespace = \"{prefix}: {uri}\")]\n",
+                derives = derives,
+                prefix = target_prefix(tn),
+                uri = tn.uri()
+            ),
             None => format!("{derives}#[yaserde()]\n", derives = derives),
         }
         .into()
diff --git a/xsd-parser/src/generator/enum_case.rs b/xsd-parser/src/generator/enum_case.rs
index 846550e..2e29023 100644
--- a/xsd-parser/src/generator/enum_case.rs
+++ b/xsd-parser/src/generator/enum_case.rs
@@ -1,5 +1,9 @@
 use crate::{
-    generator::{default::default_format_type, utils::split_name, Generator},
+    generator::{
+        default::default_format_type,
+        utils::{split_name, target_prefix},
+        Generator,
+    },
     parser::types::{EnumCase, EnumSource},
 };
 
@@ -45,7 +49,7 @@ pub trait EnumCaseGenerator {
         let (prefix, field_name) = split_name(entity.name.as_str());
         let tns = gen.target_ns.borrow();
         let prefix = match entity.source {
-            EnumSource::Choice => prefix.or_else(|| tns.as_ref().and_then(|ns| ns.name())),
+            EnumSource::Choice => prefix.or_else(|| tns.as_ref().map(target_prefix)),
             _ => prefix,
         };
         match prefix {
diff --git a/xsd-parser/src/generator/struct.rs b/xsd-parser/src/generator/struct.rs
index cd1c436..1f2544e 100644
--- a/xsd-parser/src/generator/struct.rs
+++ b/xsd-parser/src/generator/struct.rs
@@ -1,7 +1,7 @@
 use std::borrow::Cow;
 
 use crate::{
-    generator::{validator::gen_validate_impl, Generator},
+    generator::{utils::target_prefix, validator::gen_validate_impl, Generator},
     parser::types::Struct,
 };
 
@@ -82,19 +82,12 @@ pub trait StructGenerator {
         let derives = "#[derive(Default, Clone, PartialEq, Debug, YaSerialize, YaDeserialize)]\n";
         let tns = gen.target_ns.borrow();
         match tns.as_ref() {
-            Some(tn) => match tn.name() {
-                Some(name) => format!(
-                    "{derives}#[yaserde(prefix = \"{prefix}\", namespace = \"{prefix}: {uri}\")]\n",
-                    derives = derives,
-                    prefix = name,
-                    uri = tn.uri()
-                ),
-                None => format!(
-                    "{derives}#[yaserde(namespace = \"{uri}\")]\n",
-                    derives = derives,
-                    uri = tn.uri()
-                ),
-            },
+            Some(tn) => format!(
+                "{derives}#[yaserde(prefix = \"{prefix}\", namespace = \"{prefix}: {uri}\")]\n",
+                derives = derives,
+                prefix = target_prefix(tn),
+                uri = tn.uri()
+            ),
             None => format!("{derives}#[yaserde()]\n", derives = derives),
         }
         .into()
diff --git a/xsd-parser/src/generator/utils.rs b/xsd-parser/src/generator/utils.rs
index ed94780..edfedc5 100644
--- a/xsd-parser/src/generator/utils.rs
+++ b/xsd-parser/src/generator/utils.rs
@@ -113,6 +113,12 @@ pub fn filter_type_name(name: &str) -> String {
     name.chars().filter(|c| is_valid_symbol(*c)).collect()
 }
 
+/// Prefix of the target namespace in generated code. Where the schema makes it the default
+/// namespace there is none to take over, but yaserde needs one to tell namespaces apart.
+pub fn target_prefix<'a>(target_ns: &'a Namespace) -> &'a str {
+    target_ns.name().unwrap_or("tns")
+}
+
 pub fn split_name(name: &str) -> (Option<&str>, &str) {
     match name.find(':') {
         Some(index) => (Some(&name[0..index]), &name[index + 1..]),
-- 
2.43.0


From 360a4da2c62f5f3a07e1328ea84aaa0d6e9ec318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:07 +0000
Subject: [PATCH 16/33] fix: refuse a list with a malformed item instead of
 dropping the item

---
 xsd-macro-utils/src/tuple.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-macro-utils/src/tuple.rs b/xsd-macro-utils/src/tuple.rs
index 0d2dc2f..c6d3066 100644
--- a/xsd-macro-utils/src/tuple.rs
+++ b/xsd-macro-utils/src/tuple.rs
@@ -28,8 +28,8 @@ fn from_str(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
         Type::Vec(subtype) => match Type::from_path(subtype) {
             Type::String(subtype) | Type::Struct(subtype) | Type::Simple(subtype) => quote! {
                 s.split_whitespace()
-                    .filter_map(|s| <#subtype as ::std::str::FromStr>::from_str(s).ok())
-                    .collect()
+                    .map(|s| <#subtype as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string()))
+                    .collect::<::std::result::Result<_, ::std::string::String>>()?
             },
             _ => return Err(syn::Error::new(subtype.span(), "Not implemented for this subtype")),
         },
-- 
2.43.0


From c92b0040bb4e437dd92c920d9a32edf01ab15154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:18 +0000
Subject: [PATCH 17/33] fix: split lists at XML white space only

---
 xsd-macro-utils/src/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-macro-utils/src/tuple.rs b/xsd-macro-utils/src/tuple.rs
index c6d3066..c41d9fa 100644
--- a/xsd-macro-utils/src/tuple.rs
+++ b/xsd-macro-utils/src/tuple.rs
@@ -27,7 +27,7 @@ fn from_str(ast: &syn::DeriveInput) -> syn::Result<TokenStream> {
         }
         Type::Vec(subtype) => match Type::from_path(subtype) {
             Type::String(subtype) | Type::Struct(subtype) | Type::Simple(subtype) => quote! {
-                s.split_whitespace()
+                s.split_ascii_whitespace()
                     .map(|s| <#subtype as ::std::str::FromStr>::from_str(s).map_err(|e| e.to_string()))
                     .collect::<::std::result::Result<_, ::std::string::String>>()?
             },
-- 
2.43.0


From f1b5b708fe0f71b19f835d462c3393c0fe5e5563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:23 +0000
Subject: [PATCH 18/33] fix: refuse digit separators and misplaced signs in
 decimals and integers

---
 xsd-types/src/types/decimal.rs              |  7 ++++---
 xsd-types/src/types/integer.rs              |  4 +++-
 xsd-types/src/types/negative_integer.rs     |  4 +++-
 xsd-types/src/types/non_negative_integer.rs |  4 +++-
 xsd-types/src/types/non_positive_integer.rs |  4 +++-
 xsd-types/src/types/positive_integer.rs     |  4 +++-
 xsd-types/src/types/utils.rs                | 10 ++++++++++
 7 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/xsd-types/src/types/decimal.rs b/xsd-types/src/types/decimal.rs
index 00f7864..155e4ed 100644
--- a/xsd-types/src/types/decimal.rs
+++ b/xsd-types/src/types/decimal.rs
@@ -20,9 +20,10 @@ impl FromStr for Decimal {
     type Err = ParseBigDecimalError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        // BigDecimal accepts exponents, xs:decimal doesn't have them.
-        if s.contains(['e', 'E']) {
-            return Err(ParseBigDecimalError::Other("exponent in decimal".to_string()));
+        // BigDecimal accepts exponents, separators and signs within, xs:decimal doesn't have them.
+        let unsigned = s.strip_prefix(['+', '-']).unwrap_or(s);
+        if !unsigned.chars().all(|c| c.is_ascii_digit() || c == '.') {
+            return Err(ParseBigDecimalError::Other("unexpected character in decimal".to_string()));
         }
 
         Ok(Decimal(BigDecimal::from_str(s)?))
diff --git a/xsd-types/src/types/integer.rs b/xsd-types/src/types/integer.rs
index 610189c..c5ae755 100644
--- a/xsd-types/src/types/integer.rs
+++ b/xsd-types/src/types/integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigInt, ParseBigIntError, ToBigInt};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::without_separators;
+
 // https://www.w3.org/TR/xmlschema-2/#integer
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct Integer(pub BigInt);
@@ -23,7 +25,7 @@ impl FromStr for Integer {
     type Err = ParseBigIntError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Integer(BigInt::from_str(s)?))
+        Ok(Integer(BigInt::from_str(&without_separators(s))?))
     }
 }
 
diff --git a/xsd-types/src/types/negative_integer.rs b/xsd-types/src/types/negative_integer.rs
index 009a293..a501869 100644
--- a/xsd-types/src/types/negative_integer.rs
+++ b/xsd-types/src/types/negative_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigInt, ToBigInt};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::without_separators;
+
 // https://www.w3.org/TR/xmlschema-2/#negativeInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NegativeInteger(pub BigInt);
@@ -23,7 +25,7 @@ impl FromStr for NegativeInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigInt::from_str(s).map_err(|e| e.to_string())?;
+        let value = BigInt::from_str(&without_separators(s)).map_err(|e| e.to_string())?;
         if value >= 0.to_bigint().unwrap() {
             Err("Bad value for NegativeInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/non_negative_integer.rs b/xsd-types/src/types/non_negative_integer.rs
index b64d8af..3954177 100644
--- a/xsd-types/src/types/non_negative_integer.rs
+++ b/xsd-types/src/types/non_negative_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigInt, BigUint, ToBigUint};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::without_separators;
+
 // https://www.w3.org/TR/xmlschema-2/#nonNegativeInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NonNegativeInteger(pub BigUint);
@@ -24,7 +26,7 @@ impl FromStr for NonNegativeInteger {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         // "-0" is valid, so a sign has to be parsed.
-        let value = BigInt::from_str(s).map_err(|e| e.to_string())?;
+        let value = BigInt::from_str(&without_separators(s)).map_err(|e| e.to_string())?;
         match value.to_biguint() {
             Some(value) => Ok(NonNegativeInteger(value)),
             None => Err("Bad value for NonNegativeInteger".to_string()),
diff --git a/xsd-types/src/types/non_positive_integer.rs b/xsd-types/src/types/non_positive_integer.rs
index b0565a6..fb3cd44 100644
--- a/xsd-types/src/types/non_positive_integer.rs
+++ b/xsd-types/src/types/non_positive_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigInt, ToBigInt};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::without_separators;
+
 // https://www.w3.org/TR/xmlschema-2/#nonPositiveInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct NonPositiveInteger(pub BigInt);
@@ -23,7 +25,7 @@ impl FromStr for NonPositiveInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigInt::from_str(s).map_err(|e| e.to_string())?;
+        let value = BigInt::from_str(&without_separators(s)).map_err(|e| e.to_string())?;
         if value > 0.to_bigint().unwrap() {
             Err("Bad value for NonPositiveInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/positive_integer.rs b/xsd-types/src/types/positive_integer.rs
index ea98080..c42ea09 100644
--- a/xsd-types/src/types/positive_integer.rs
+++ b/xsd-types/src/types/positive_integer.rs
@@ -3,6 +3,8 @@ use std::{fmt, str::FromStr};
 use num_bigint::{BigUint, ToBigUint};
 use xsd_macro_utils::UtilsDefaultSerde;
 
+use crate::types::utils::without_separators;
+
 // https://www.w3.org/TR/xmlschema-2/#positiveInteger
 #[derive(Default, Clone, PartialEq, PartialOrd, Debug, UtilsDefaultSerde)]
 pub struct PositiveInteger(pub BigUint);
@@ -23,7 +25,7 @@ impl FromStr for PositiveInteger {
     type Err = String;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let value = BigUint::from_str(s).map_err(|e| e.to_string())?;
+        let value = BigUint::from_str(&without_separators(s)).map_err(|e| e.to_string())?;
         if value <= 0.to_biguint().unwrap() {
             Err("Bad value for PositiveInteger".to_string())
         } else {
diff --git a/xsd-types/src/types/utils.rs b/xsd-types/src/types/utils.rs
index f0a1165..6a71e92 100644
--- a/xsd-types/src/types/utils.rs
+++ b/xsd-types/src/types/utils.rs
@@ -1,5 +1,15 @@
+use std::borrow::Cow;
+
 use chrono::FixedOffset;
 
+// BigInt accepts '_' between digits, xs:integer doesn't have it: makes it refuse the number.
+pub(crate) fn without_separators(s: &str) -> Cow<'_, str> {
+    match s.contains('_') {
+        true => s.replace('_', "?").into(),
+        false => s.into(),
+    }
+}
+
 // Parses ISO 8601 timezone.
 pub fn parse_timezone(s: &str) -> Result<FixedOffset, String> {
     if s == "Z" {
-- 
2.43.0


From f43a42675cf5fa029b925be353f82274c1b18861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:58 +0000
Subject: [PATCH 19/33] fix: refuse a duration with digits after its last
 designator

---
 xsd-types/src/types/duration.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index c337c91..a677892 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -93,6 +93,8 @@ impl FromStr for Duration {
             context.last_filled_component = 6;
             context.number = 0;
             context.is_number_empty = true;
+            context.is_dot_found = false;
+            context.fraction.clear();
 
             Ok(())
         }
@@ -125,7 +127,7 @@ impl FromStr for Duration {
                         return Err("Symbol 'T' occurred twice".into());
                     }
 
-                    if context.number > 0 {
+                    if !context.is_number_empty {
                         return Err("Symbol 'T' occurred after a number".into());
                     }
 
@@ -191,7 +193,7 @@ impl FromStr for Duration {
             }
         }
 
-        if context.number > 0 {
+        if !context.is_number_empty {
             return Err("Number at the end of the string".into());
         }
 
-- 
2.43.0


From 170cd2958f2af74f7b728e9ceed2d4aff920a6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:37 +0000
Subject: [PATCH 20/33] fix: finish a base type before copying its fields

The copied fields carry their own nested types; extending those again never ended
when a nested type extends the type that contains it.
---
 xsd-parser/src/parser/types.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 08264c9..6890779 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -38,23 +38,21 @@ impl Struct {
     pub fn extend_base(&self, types: &HashMap<&String, &Self>) {
         self.fields.borrow_mut().iter_mut().for_each(|f| f.extend_base(types));
 
-        // A base may be declared after the types derived from it, so the whole
-        // chain of bases is followed here.
-        let mut visited = vec![self as *const Self];
+        // A base may be declared after the types derived from it, so it is completed
+        // first. It is marked as done before that, which ends circular definitions.
         while let Some(base) = self.take_base() {
             let key = base.type_name.split(':').last().unwrap().to_string();
             let base = match types.get(&key) {
-                Some(base) if !visited.contains(&(*base as *const Self)) => *base,
+                Some(base) if !std::ptr::eq(*base, self) => *base,
                 _ => continue,
             };
-            visited.push(base);
+            base.extend_base(types);
 
             let mut fields = base.fields.borrow().clone();
             fields.retain(|f| {
                 //TODO: remove this workaround for fields names clash
-                f.is_base() || !self.fields.borrow().iter().any(|field| field.name == f.name)
+                !self.fields.borrow().iter().any(|field| field.name == f.name)
             });
-            fields.iter_mut().for_each(|f| f.extend_base(types));
             self.fields.borrow_mut().append(&mut fields);
         }
 
-- 
2.43.0


From 85604826865f1b306d9f32fc03d4d1c1c6bef659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:47 +0000
Subject: [PATCH 21/33] fix: resolve base types and attribute groups of WSDL
 schemas

They were resolved by parse() only, which WSDL conversion does not call, so types
taken from a WSDL document kept an unusable base field and lost their attributes.
---
 xsd-parser/src/parser/mod.rs    | 26 ++------------------------
 xsd-parser/src/parser/schema.rs | 24 ++++++++++++++++++++++--
 2 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/xsd-parser/src/parser/mod.rs b/xsd-parser/src/parser/mod.rs
index c62df1b..a2f5831 100644
--- a/xsd-parser/src/parser/mod.rs
+++ b/xsd-parser/src/parser/mod.rs
@@ -23,12 +23,7 @@ mod union;
 mod utils;
 pub mod xsd_elements;
 
-use std::collections::HashMap;
-
-use crate::parser::{
-    schema::parse_schema,
-    types::{RsEntity, RsFile},
-};
+use crate::parser::{schema::parse_schema, types::RsFile};
 
 // FIXME: Actually pass up errors
 #[allow(clippy::result_unit_err)]
@@ -39,22 +34,5 @@ pub fn parse(text: &str) -> Result<RsFile, ()> {
     let schema =
         root.children().filter(|e| e.is_element()).last().expect("Schema element is required");
 
-    let schema_rs = parse_schema(&schema);
-    let structs = schema_rs.types.iter().flat_map(RsEntity::structs).collect::<Vec<_>>();
-    let types = structs.iter().flat_map(|st| st.get_types_map()).collect::<HashMap<_, _>>();
-    let groups = schema_rs
-        .attribute_groups
-        .iter()
-        .flat_map(RsEntity::structs)
-        .map(|group| (&group.name, group))
-        .collect::<HashMap<_, _>>();
-
-    for st in &structs {
-        st.extend_attribute_group(&groups);
-    }
-    for st in &structs {
-        st.extend_base(&types);
-    }
-
-    Ok(schema_rs)
+    Ok(parse_schema(&schema))
 }
diff --git a/xsd-parser/src/parser/schema.rs b/xsd-parser/src/parser/schema.rs
index 36be5ef..3613718 100644
--- a/xsd-parser/src/parser/schema.rs
+++ b/xsd-parser/src/parser/schema.rs
@@ -1,8 +1,10 @@
+use std::collections::HashMap;
+
 use roxmltree::Node;
 
 use crate::parser::{
     node_parser::parse_node,
-    types::RsFile,
+    types::{RsEntity, RsFile},
     utils::target_namespace,
     xsd_elements::{ElementType, XsdNode},
 };
@@ -12,7 +14,7 @@ pub fn parse_schema<'input>(schema: &Node<'_, 'input>) -> RsFile<'input> {
         .namespaces()
         .filter(|namespace| namespace.uri() == "http://www.w3.org/2001/XMLSchema");
 
-    RsFile {
+    let schema_rs = RsFile {
         name: "".into(),
         namespace: None,
         target_ns: target_namespace(schema).cloned(),
@@ -35,7 +37,25 @@ pub fn parse_schema<'input>(schema: &Node<'_, 'input>) -> RsFile<'input> {
             .filter(|n| n.is_element() && n.xsd_type() == ElementType::AttributeGroup)
             .map(|node| parse_node(&node, schema))
             .collect(),
+    };
+
+    let structs = schema_rs.types.iter().flat_map(RsEntity::structs).collect::<Vec<_>>();
+    let types = structs.iter().flat_map(|st| st.get_types_map()).collect::<HashMap<_, _>>();
+    let groups = schema_rs
+        .attribute_groups
+        .iter()
+        .flat_map(RsEntity::structs)
+        .map(|group| (&group.name, group))
+        .collect::<HashMap<_, _>>();
+
+    for st in &structs {
+        st.extend_attribute_group(&groups);
     }
+    for st in &structs {
+        st.extend_base(&types);
+    }
+
+    schema_rs
 }
 
 #[cfg(test)]
-- 
2.43.0


From 07a0f986986d122b373bb1404aa676dea9efe8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:02 +0000
Subject: [PATCH 22/33] fix: escape the keyword try in generated names

---
 wsdl-parser/src/generator/mod.rs  | 1 +
 xsd-parser/src/generator/utils.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/wsdl-parser/src/generator/mod.rs b/wsdl-parser/src/generator/mod.rs
index e6aaad3..eb6e051 100644
--- a/wsdl-parser/src/generator/mod.rs
+++ b/wsdl-parser/src/generator/mod.rs
@@ -182,6 +182,7 @@ const RS_KEYWORDS: &[&str] = &[
     "super",
     "trait",
     "true",
+    "try",
     "type",
     "typeof",
     "unsafe",
diff --git a/xsd-parser/src/generator/utils.rs b/xsd-parser/src/generator/utils.rs
index edfedc5..a2289df 100644
--- a/xsd-parser/src/generator/utils.rs
+++ b/xsd-parser/src/generator/utils.rs
@@ -175,6 +175,7 @@ const RS_KEYWORDS: &[&str] = &[
     "super",
     "trait",
     "true",
+    "try",
     "type",
     "typeof",
     "unsafe",
-- 
2.43.0


From c2754e40f1ee33b9ba605ed0f8b6679758ef658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:33 +0000
Subject: [PATCH 23/33] fix: refuse a plus sign before the year of a date

---
 xsd-types/src/types/date.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xsd-types/src/types/date.rs b/xsd-types/src/types/date.rs
index 820f930..16f782d 100644
--- a/xsd-types/src/types/date.rs
+++ b/xsd-types/src/types/date.rs
@@ -32,6 +32,10 @@ impl FromStr for Date {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         fn parse_naive_date(s: &str) -> Result<NaiveDate, String> {
+            // NaiveDate accepts a plus sign before the year, xs:date doesn't have it.
+            if s.contains('+') {
+                return Err("bad date format".to_string());
+            }
             NaiveDate::parse_from_str(s, "%Y-%m-%d").map_err(|e| e.to_string())
         }
 
-- 
2.43.0


From bfb1128127ad453b7b4dd32f3ef108a941ea8608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:43 +0000
Subject: [PATCH 24/33] fix: name types by the prefix of the target namespace
 when it is the default one too

---
 xsd-parser/src/parser/utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 1e9c92d..34428a0 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -11,7 +11,12 @@ use crate::parser::{
 
 pub fn target_namespace<'a, 'input>(node: &Node<'a, 'input>) -> Option<&'a Namespace<'input>> {
     match node.attribute(attribute::TARGET_NAMESPACE) {
-        Some(tn) => node.namespaces().find(|a| a.uri() == tn),
+        Some(tn) => {
+            // Names are resolved by prefix, so a prefix goes before the default namespace.
+            let bound = |a: &&Namespace| a.uri() == tn;
+            let named = node.namespaces().find(|a| bound(a) && a.name().is_some());
+            named.or_else(|| node.namespaces().find(bound))
+        }
         None => None,
     }
 }
-- 
2.43.0


From 310bf8fcaa4c7df56953b5c5006b8bcedb2f436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:43 +0000
Subject: [PATCH 25/33] fix: refuse to convert durations that are negative or
 too long

---
 xsd-types/src/types/duration.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/xsd-types/src/types/duration.rs b/xsd-types/src/types/duration.rs
index a677892..ed36886 100644
--- a/xsd-types/src/types/duration.rs
+++ b/xsd-types/src/types/duration.rs
@@ -19,13 +19,17 @@ impl Duration {
     pub fn to_std_duration(&self) -> Result<std::time::Duration, String> {
         if self.years > 0 || self.months > 0 {
             Err("Duration with months or years require a starting date to be converted".into())
+        } else if self.is_negative && *self != (Duration { is_negative: true, ..Duration::default() }) {
+            Err("Negative duration can't be converted".into())
         } else {
-            let secs = self.seconds as u64;
-
-            let nanos = ((self.seconds - secs as f64) * 1e9) as u32;
-            let secs = secs + 60 * (self.minutes + 60 * (self.hours + 24 * self.days));
-
-            Ok(std::time::Duration::new(secs, nanos))
+            let secs = std::time::Duration::try_from_secs_f64(self.seconds).map_err(|e| e.to_string())?;
+
+            self.days
+                .checked_mul(24)
+                .and_then(|hours| hours.checked_add(self.hours)?.checked_mul(60))
+                .and_then(|minutes| minutes.checked_add(self.minutes)?.checked_mul(60))
+                .and_then(|rest| secs.checked_add(std::time::Duration::from_secs(rest)))
+                .ok_or_else(|| "Duration is too long to be converted".to_string())
         }
     }
 
-- 
2.43.0


From 58ca566a988bbaa5f3a64221bf1cc4bcc241e476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:43 +0000
Subject: [PATCH 26/33] fix: read and write the least year of gYear and
 gYearMonth

---
 xsd-types/src/types/gyear.rs      | 19 +++++++++----------
 xsd-types/src/types/gyearmonth.rs | 19 +++++++++----------
 2 files changed, 18 insertions(+), 20 deletions(-)

diff --git a/xsd-types/src/types/gyear.rs b/xsd-types/src/types/gyear.rs
index 7943e8b..59adb0a 100644
--- a/xsd-types/src/types/gyear.rs
+++ b/xsd-types/src/types/gyear.rs
@@ -31,24 +31,23 @@ impl FromStr for GYear {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         if let Some(s) = s.strip_prefix('-') {
-            let mut gyear = parse_str_positive(s)?;
-            gyear.value *= -1;
-            return Ok(gyear);
+            return parse_str_unsigned(s, "-");
         }
-        parse_str_positive(s)
+        parse_str_unsigned(s, "")
     }
 }
 
-fn parse_str_positive(s: &str) -> Result<GYear, String> {
-    fn parse_value(s: &str) -> Result<i32, String> {
+// The sign is parsed along with the digits: the least year has no positive counterpart.
+fn parse_str_unsigned(s: &str, sign: &str) -> Result<GYear, String> {
+    let parse_value = |s: &str| -> Result<i32, String> {
         if s.len() < 4 {
             return Err("bad gYear format: to short".to_string());
         }
         if !s.chars().all(|c| c.is_ascii_digit()) {
             return Err("bad gYear format".to_string());
         }
-        s.parse::<i32>().map_err(|e| e.to_string())
-    }
+        format!("{}{}", sign, s).parse::<i32>().map_err(|e| e.to_string())
+    };
 
     if let Some(s) = s.strip_suffix('Z') {
         return GYear::new(parse_value(s)?, Some(FixedOffset::east_opt(0).unwrap()));
@@ -88,8 +87,8 @@ impl fmt::Display for GYear {
             }
         } else {
             match self.timezone {
-                Some(tz) => write!(f, "-{:04}{}", -self.value, tz),
-                None => write!(f, "-{:04}", -self.value),
+                Some(tz) => write!(f, "-{:04}{}", self.value.unsigned_abs(), tz),
+                None => write!(f, "-{:04}", self.value.unsigned_abs()),
             }
         }
     }
diff --git a/xsd-types/src/types/gyearmonth.rs b/xsd-types/src/types/gyearmonth.rs
index 38a3a09..b3dcd0d 100644
--- a/xsd-types/src/types/gyearmonth.rs
+++ b/xsd-types/src/types/gyearmonth.rs
@@ -45,16 +45,15 @@ impl FromStr for GYearMonth {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         if let Some(s) = s.strip_prefix('-') {
-            let mut gyearmonth = parse_str_positive(s)?;
-            gyearmonth.year *= -1;
-            return Ok(gyearmonth);
+            return parse_str_unsigned(s, "-");
         }
-        parse_str_positive(s)
+        parse_str_unsigned(s, "")
     }
 }
 
-fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
-    fn parse_value(s: &str) -> Result<(i32, i32), String> {
+// The sign is parsed along with the digits: the least year has no positive counterpart.
+fn parse_str_unsigned(s: &str, sign: &str) -> Result<GYearMonth, String> {
+    let parse_value = |s: &str| -> Result<(i32, i32), String> {
         if s.matches('-').count() != 1 {
             return Err("bad gYearMonth format".to_string());
         }
@@ -69,7 +68,7 @@ fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
         if !year_token.chars().all(|c| c.is_ascii_digit()) {
             return Err("bad year format within gYearMonth".to_string());
         }
-        let year = year_token.parse::<i32>().map_err(|e| e.to_string())?;
+        let year = format!("{}{}", sign, year_token).parse::<i32>().map_err(|e| e.to_string())?;
 
         if !month_token.chars().all(|c| c.is_ascii_digit()) {
             return Err("bad month format within gYearMonth".to_string());
@@ -77,7 +76,7 @@ fn parse_str_positive(s: &str) -> Result<GYearMonth, String> {
         let month = month_token.parse::<i32>().map_err(|e| e.to_string())?;
 
         Ok((year, month))
-    }
+    };
 
     if let Some(s) = s.strip_suffix('Z') {
         let (year, month) = parse_value(s)?;
@@ -117,8 +116,8 @@ impl fmt::Display for GYearMonth {
             }
         } else {
             match self.timezone {
-                Some(tz) => write!(f, "-{:04}-{:02}{}", -self.year, self.month, tz),
-                None => write!(f, "-{:04}-{:02}", -self.year, self.month),
+                Some(tz) => write!(f, "-{:04}-{:02}{}", self.year.unsigned_abs(), self.month, tz),
+                None => write!(f, "-{:04}-{:02}", self.year.unsigned_abs(), self.month),
             }
         }
     }
-- 
2.43.0


From e61cffc3b3465185732634246731a3759f1518e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:18 +0000
Subject: [PATCH 27/33] fix: keep the content and the attribute groups of types
 that restrict another one

---
 xsd-parser/src/parser/restriction.rs | 39 ++++++++++++++--------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index 76eb173..5426630 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -10,20 +10,17 @@ use crate::parser::{
         TupleStruct,
     },
     utils::{
-        attribute_groups_to_aliases, attributes_to_fields, get_base, get_documentation,
-        get_parent_name,
+        attribute_groups_to_aliases, attributes_to_fields, enum_to_field, get_base,
+        get_documentation, get_parent_name,
     },
     xsd_elements::{ElementType, FacetType, RestrictionType, XsdNode},
 };
 
-const AVAILABLE_CONTENT_TYPES: [ElementType; 7] = [
-    ElementType::All, // Not presented in ONVIF
-    ElementType::AnyAttribute,
-    ElementType::Attribute,
-    ElementType::AttributeGroup, // Not presented in ONVIF
-    ElementType::Choice,         // Not presented in ONVIF
-    ElementType::Group,          // Not presented in ONVIF
-    ElementType::Sequence,       // Not presented in ONVIF
+const AVAILABLE_CONTENT_TYPES: [ElementType; 4] = [
+    ElementType::All,      // Not presented in ONVIF
+    ElementType::Choice,   // Not presented in ONVIF
+    ElementType::Group,    // Not presented in ONVIF
+    ElementType::Sequence, // Not presented in ONVIF
 ];
 
 pub fn parse_restriction(node: &Node, _: &Node) -> RsEntity {
@@ -76,19 +73,21 @@ fn complex_content_restriction(node: &Node) -> RsEntity {
 
     let content = node
         .children()
-        .filter(|n| {
-            n.is_element()
-                && n.xsd_type() != ElementType::Attribute
-                && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type())
-        })
+        .filter(|n| n.is_element() && AVAILABLE_CONTENT_TYPES.contains(&n.xsd_type()))
         .last();
 
     if let Some(cont) = content {
-        let mut res = parse_node(&cont, node);
-        if let RsEntity::Struct(s) = &mut res {
-            s.comment = get_documentation(node);
-            s.fields.borrow_mut().append(&mut fields);
-            return res;
+        match parse_node(&cont, node) {
+            RsEntity::Struct(s) => {
+                s.fields.borrow_mut().append(&mut fields);
+                s.attribute_groups.borrow_mut().append(&mut attribute_groups_to_aliases(node));
+                return RsEntity::Struct(Struct { comment: get_documentation(node), ..s });
+            }
+            RsEntity::Enum(mut en) => {
+                en.name = format!("{}Choice", get_parent_name(node));
+                fields.insert(0, enum_to_field(en));
+            }
+            _ => (),
         }
     }
 
-- 
2.43.0


From fa94f7b747a544e08197e22109e04d6dda5ccabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:40 +0000
Subject: [PATCH 28/33] fix: take references to global elements and attributes
 to the types they name

---
 xsd-parser/src/parser/attribute.rs |  9 +++++++--
 xsd-parser/src/parser/element.rs   | 11 +++++++----
 xsd-parser/src/parser/utils.rs     | 18 ++++++++++++++++++
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/xsd-parser/src/parser/attribute.rs b/xsd-parser/src/parser/attribute.rs
index 9d7ef18..f3ed6d8 100644
--- a/xsd-parser/src/parser/attribute.rs
+++ b/xsd-parser/src/parser/attribute.rs
@@ -3,7 +3,7 @@ use roxmltree::Node;
 use crate::parser::{
     node_parser::parse_node,
     types::{Alias, RsEntity, Struct, StructField, StructFieldSource, TypeModifier},
-    utils::get_documentation,
+    utils::{get_documentation, referenced_type},
     xsd_elements::{ElementType, UseType, XsdNode},
 };
 
@@ -18,7 +18,12 @@ pub fn parse_attribute(node: &Node, parent: &Node) -> RsEntity {
         .expect("All attributes have name or ref")
         .to_string();
 
-    let type_name = node.attr_type().or_else(|| node.attr_ref()).unwrap_or("String").to_string();
+    let type_name = node
+        .attr_type()
+        .or_else(|| referenced_type(node))
+        .or_else(|| node.attr_ref())
+        .unwrap_or("String")
+        .to_string();
 
     let type_modifier = match node.attr_use() {
         UseType::Optional => TypeModifier::Option,
diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 6118d7d..7beb0b9 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -6,7 +6,7 @@ use crate::parser::{
     types::{
         Alias, EnumCase, EnumSource, RsEntity, Struct, StructField, StructFieldSource, TypeModifier,
     },
-    utils::get_documentation,
+    utils::{get_documentation, referenced_type},
     xsd_elements::{max_occurs, min_occurs, ElementType, MaxOccurs, XsdNode},
 };
 
@@ -40,7 +40,7 @@ fn parse_case_of_choice(element: &Node) -> RsEntity {
         return RsEntity::EnumCase(EnumCase {
             name: ref_attr.to_string(),
             value: String::default(),
-            type_name: Some(ref_attr.to_string()),
+            type_name: Some(referenced_type(element).unwrap_or(ref_attr).to_string()),
             comment: get_documentation(element),
             type_modifiers: vec![element_modifier(element)],
             source: EnumSource::Choice,
@@ -77,8 +77,11 @@ fn parse_field_of_sequence(node: &Node, _: &Node) -> RsEntity {
         .to_string();
 
     if node.has_attribute(attribute::TYPE) || node.has_attribute(attribute::REF) {
-        let type_name =
-            node.attr_type().unwrap_or_else(|| node.attr_ref().unwrap_or("String")).to_string();
+        let type_name = node
+            .attr_type()
+            .or_else(|| referenced_type(node))
+            .unwrap_or_else(|| node.attr_ref().unwrap_or("String"))
+            .to_string();
 
         return RsEntity::StructField(StructField {
             name,
diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 34428a0..2fc7e39 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -47,6 +47,24 @@ pub fn get_parent_name<'a>(node: &Node<'a, '_>) -> &'a str {
     }
 }
 
+/// The type of the global element or attribute the node refers to, if it is a named one: only
+/// those that declare their type in place become types themselves.
+pub fn referenced_type<'a>(node: &Node<'a, '_>) -> Option<&'a str> {
+    let reference = node.attribute(attribute::REF)?;
+    let (prefix, name) = match reference.split_once(':') {
+        Some((prefix, name)) => (Some(prefix), name),
+        None => (None, reference),
+    };
+    let schema = node.ancestors().find(|n| n.xsd_type() == ElementType::Schema)?;
+    if node.lookup_namespace_uri(prefix) != schema.attribute(attribute::TARGET_NAMESPACE) {
+        return None;
+    }
+    schema
+        .children()
+        .find(|n| n.is_element() && n.xsd_type() == node.xsd_type() && n.attr_name() == Some(name))?
+        .attribute(attribute::TYPE)
+}
+
 pub fn get_base<'a>(node: &Node<'a, '_>) -> &'a str {
     node.attribute(attribute::BASE).expect("The base value is required")
 }
-- 
2.43.0


From de162d2a78a8d97e474f137b2d457ab766cf249b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:22 +0000
Subject: [PATCH 29/33] fix: name types of a service by the prefix of its
 namespace when it is the default one too

---
 wsdl-parser/src/parser/definitions.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wsdl-parser/src/parser/definitions.rs b/wsdl-parser/src/parser/definitions.rs
index df04a62..7244251 100644
--- a/wsdl-parser/src/parser/definitions.rs
+++ b/wsdl-parser/src/parser/definitions.rs
@@ -48,7 +48,12 @@ pub struct Definitions<'a> {
 impl<'a> Definitions<'a> {
     pub fn target_namespace(&self) -> Option<&'a Namespace<'_>> {
         match self.node().attribute(attribute::TARGET_NAMESPACE) {
-            Some(tn) => self.node().namespaces().find(|a| a.uri() == tn),
+            Some(tn) => {
+                // Names are resolved by prefix, so a prefix goes before the default namespace.
+                let bound = |a: &&Namespace| a.uri() == tn;
+                let named = self.node().namespaces().find(|a| bound(a) && a.name().is_some());
+                named.or_else(|| self.node().namespaces().find(bound))
+            }
             None => None,
         }
     }
-- 
2.43.0


From 7a055e381e21aafc300e24a44ed090ad088571f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:44 +0000
Subject: [PATCH 30/33] fix: name the anonymous members of a union after the
 union

They were all called EnumCaseType_0, EnumCaseType_1, ... in the module of the
schema, so a schema with two such unions gave code that does not compile.
---
 xsd-parser/src/parser/types.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 6890779..5994e36 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -158,6 +158,24 @@ pub struct Enum {
     pub source: EnumSource,
 }
 
+impl Enum {
+    fn set_name(&mut self, name: &str) {
+        self.name = name.to_string();
+        if self.source != EnumSource::Union {
+            return;
+        }
+        // The anonymous members of a union are named after it: other unions have such members too
+        for (index, subtype) in self.subtypes.iter_mut().enumerate() {
+            let subtype_name = format!("{}EnumCaseType_{}", name, index);
+            self.cases
+                .iter_mut()
+                .filter(|case| case.type_name.as_deref() == Some(subtype.name()))
+                .for_each(|case| case.type_name = Some(subtype_name.clone()));
+            subtype.set_name(&subtype_name);
+        }
+    }
+}
+
 #[allow(clippy::upper_case_acronyms)]
 #[derive(Debug, Clone, PartialEq, Default)]
 pub enum EnumSource {
@@ -242,7 +260,7 @@ impl RsEntity {
         match self {
             Struct(s) => s.name = name.to_string(),
             TupleStruct(tp) => tp.name = name.to_string(),
-            Enum(e) => e.name = name.to_string(),
+            Enum(e) => e.set_name(name),
             EnumCase(ec) => ec.name = name.to_string(),
             Alias(al) => al.name = name.to_string(),
             StructField(sf) => sf.name = name.to_string(),
-- 
2.43.0


From 5e3d5000f3fc520d8d5ea59e221c815fbc60291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:03 +0000
Subject: [PATCH 31/33] fix: leave local elements of unqualified schemas
 without a namespace

elementFormDefault, attributeFormDefault and form were ignored: every local
element was sent in the target namespace and no local attribute was, so the
documents of a schema without elementFormDefault="qualified" were invalid.
---
 xsd-parser/src/generator/enum_case.rs    |  2 +-
 xsd-parser/src/generator/struct_field.rs |  2 +-
 xsd-parser/src/parser/attribute.rs       | 12 ++++++++++--
 xsd-parser/src/parser/constants.rs       |  3 +++
 xsd-parser/src/parser/element.rs         |  7 ++++++-
 xsd-parser/src/parser/restriction.rs     |  1 +
 xsd-parser/src/parser/types.rs           |  4 ++++
 xsd-parser/src/parser/utils.rs           | 21 ++++++++++++++++++++-
 8 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/xsd-parser/src/generator/enum_case.rs b/xsd-parser/src/generator/enum_case.rs
index 2e29023..417e04e 100644
--- a/xsd-parser/src/generator/enum_case.rs
+++ b/xsd-parser/src/generator/enum_case.rs
@@ -49,7 +49,7 @@ pub trait EnumCaseGenerator {
         let (prefix, field_name) = split_name(entity.name.as_str());
         let tns = gen.target_ns.borrow();
         let prefix = match entity.source {
-            EnumSource::Choice => prefix.or_else(|| tns.as_ref().map(target_prefix)),
+            EnumSource::Choice if !entity.unqualified => prefix.or_else(|| tns.as_ref().map(target_prefix)),
             _ => prefix,
         };
         match prefix {
diff --git a/xsd-parser/src/generator/struct_field.rs b/xsd-parser/src/generator/struct_field.rs
index dee270c..a378f20 100644
--- a/xsd-parser/src/generator/struct_field.rs
+++ b/xsd-parser/src/generator/struct_field.rs
@@ -47,7 +47,7 @@ pub trait StructFieldGenerator {
             }
             StructFieldSource::Element => yaserde_for_element(
                 entity.name.as_str(),
-                gen.target_ns.borrow().as_ref(),
+                gen.target_ns.borrow().as_ref().filter(|_| !entity.unqualified),
                 indent.as_str(),
             ),
             _ => "".into(),
diff --git a/xsd-parser/src/parser/attribute.rs b/xsd-parser/src/parser/attribute.rs
index f3ed6d8..ed7244a 100644
--- a/xsd-parser/src/parser/attribute.rs
+++ b/xsd-parser/src/parser/attribute.rs
@@ -1,9 +1,10 @@
 use roxmltree::Node;
 
 use crate::parser::{
+    constants::attribute,
     node_parser::parse_node,
     types::{Alias, RsEntity, Struct, StructField, StructFieldSource, TypeModifier},
-    utils::{get_documentation, referenced_type},
+    utils::{get_documentation, is_qualified, referenced_type, schema, target_namespace},
     xsd_elements::{ElementType, UseType, XsdNode},
 };
 
@@ -12,12 +13,18 @@ pub fn parse_attribute(node: &Node, parent: &Node) -> RsEntity {
         return parse_global_attribute(node);
     }
 
-    let name = node
+    let mut name = node
         .attr_name()
         .or_else(|| node.attr_ref())
         .expect("All attributes have name or ref")
         .to_string();
 
+    if !node.has_attribute(attribute::REF) && is_qualified(node) {
+        if let Some(prefix) = schema(node).and_then(|s| target_namespace(&s)?.name()) {
+            name = format!("{}:{}", prefix, name);
+        }
+    }
+
     let type_name = node
         .attr_type()
         .or_else(|| referenced_type(node))
@@ -38,6 +45,7 @@ pub fn parse_attribute(node: &Node, parent: &Node) -> RsEntity {
         name,
         source: StructFieldSource::Attribute,
         type_modifiers: vec![type_modifier],
+        ..Default::default()
     })
 }
 
diff --git a/xsd-parser/src/parser/constants.rs b/xsd-parser/src/parser/constants.rs
index 0108127..9208312 100644
--- a/xsd-parser/src/parser/constants.rs
+++ b/xsd-parser/src/parser/constants.rs
@@ -10,6 +10,9 @@ pub mod attribute {
     pub const ITEM_TYPE: &str = "itemType";
     pub const BASE: &str = "base";
     pub const USE: &str = "use";
+    pub const FORM: &str = "form";
+    pub const ELEMENT_FORM_DEFAULT: &str = "elementFormDefault";
+    pub const ATTRIBUTE_FORM_DEFAULT: &str = "attributeFormDefault";
     pub const TARGET_NAMESPACE: &str = "targetNamespace";
     pub const NAMESPACE: &str = "namespace";
     pub const SCHEMA_LOCATION: &str = "schemaLocation";
diff --git a/xsd-parser/src/parser/element.rs b/xsd-parser/src/parser/element.rs
index 7beb0b9..da9b3cc 100644
--- a/xsd-parser/src/parser/element.rs
+++ b/xsd-parser/src/parser/element.rs
@@ -6,7 +6,7 @@ use crate::parser::{
     types::{
         Alias, EnumCase, EnumSource, RsEntity, Struct, StructField, StructFieldSource, TypeModifier,
     },
-    utils::{get_documentation, referenced_type},
+    utils::{get_documentation, is_qualified, referenced_type},
     xsd_elements::{max_occurs, min_occurs, ElementType, MaxOccurs, XsdNode},
 };
 
@@ -44,6 +44,7 @@ fn parse_case_of_choice(element: &Node) -> RsEntity {
             comment: get_documentation(element),
             type_modifiers: vec![element_modifier(element)],
             source: EnumSource::Choice,
+            unqualified: false,
         });
     }
 
@@ -57,6 +58,7 @@ fn parse_case_of_choice(element: &Node) -> RsEntity {
             comment: get_documentation(element),
             type_modifiers: vec![element_modifier(element)],
             source: EnumSource::Choice,
+            unqualified: !is_qualified(element),
         });
     }
 
@@ -67,6 +69,7 @@ fn parse_case_of_choice(element: &Node) -> RsEntity {
         comment: get_documentation(element),
         type_modifiers: vec![element_modifier(element)],
         source: EnumSource::Choice,
+        unqualified: !is_qualified(element),
     })
 }
 
@@ -89,6 +92,7 @@ fn parse_field_of_sequence(node: &Node, _: &Node) -> RsEntity {
             comment: get_documentation(node),
             source: StructFieldSource::Element,
             type_modifiers: vec![element_modifier(node)],
+            unqualified: !is_qualified(node),
             ..Default::default()
         });
     }
@@ -110,6 +114,7 @@ fn parse_field_of_sequence(node: &Node, _: &Node) -> RsEntity {
         subtypes: vec![field_type],
         source: StructFieldSource::Element,
         type_modifiers: vec![element_modifier(node)],
+        unqualified: !is_qualified(node),
     })
 }
 
diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index 5426630..acf855c 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -119,6 +119,7 @@ fn cases(facets: &[Facet]) -> Vec<EnumCase> {
                 type_name: None,
                 type_modifiers: vec![],
                 source: EnumSource::Restriction,
+                ..Default::default()
             }),
             _ => None,
         })
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 5994e36..777e747 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -105,6 +105,8 @@ pub struct StructField {
     pub subtypes: Vec<RsEntity>,
     pub source: StructFieldSource,
     pub type_modifiers: Vec<TypeModifier>,
+    /// Whether the element has no namespace, rather than the target namespace of its schema
+    pub unqualified: bool,
 }
 
 impl StructField {
@@ -203,6 +205,8 @@ pub struct EnumCase {
     pub type_name: Option<String>,
     pub type_modifiers: Vec<TypeModifier>,
     pub source: EnumSource,
+    /// Whether the element has no namespace, rather than the target namespace of its schema
+    pub unqualified: bool,
 }
 
 #[derive(Debug, Clone, Default)]
diff --git a/xsd-parser/src/parser/utils.rs b/xsd-parser/src/parser/utils.rs
index 2fc7e39..6863329 100644
--- a/xsd-parser/src/parser/utils.rs
+++ b/xsd-parser/src/parser/utils.rs
@@ -55,7 +55,7 @@ pub fn referenced_type<'a>(node: &Node<'a, '_>) -> Option<&'a str> {
         Some((prefix, name)) => (Some(prefix), name),
         None => (None, reference),
     };
-    let schema = node.ancestors().find(|n| n.xsd_type() == ElementType::Schema)?;
+    let schema = schema(node)?;
     if node.lookup_namespace_uri(prefix) != schema.attribute(attribute::TARGET_NAMESPACE) {
         return None;
     }
@@ -65,6 +65,25 @@ pub fn referenced_type<'a>(node: &Node<'a, '_>) -> Option<&'a str> {
         .attribute(attribute::TYPE)
 }
 
+/// The schema the node is a part of
+pub fn schema<'a, 'input>(node: &Node<'a, 'input>) -> Option<Node<'a, 'input>> {
+    node.ancestors().find(|n| n.xsd_type() == ElementType::Schema)
+}
+
+/// Whether the element or attribute is in the target namespace when it is not a global one
+pub fn is_qualified(node: &Node) -> bool {
+    if node.has_attribute(attribute::REF) {
+        return true;
+    }
+    let default = match node.xsd_type() {
+        ElementType::Attribute => attribute::ATTRIBUTE_FORM_DEFAULT,
+        _ => attribute::ELEMENT_FORM_DEFAULT,
+    };
+    node.attribute(attribute::FORM)
+        .or_else(|| schema(node).and_then(|s| s.attribute(default)))
+        .map_or(false, |form| form == "qualified")
+}
+
 pub fn get_base<'a>(node: &Node<'a, '_>) -> &'a str {
     node.attribute(attribute::BASE).expect("The base value is required")
 }
-- 
2.43.0


From e7b3b5726f5fbf29439514dd62cc953bac786914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:56 +0000
Subject: [PATCH 32/33] fix: generate the types that the elements of a choice
 declare in place

The content of such an element was lost: its case carried nothing.
---
 xsd-parser/src/parser/choice.rs       | 20 +++++++++++++++++++-
 xsd-parser/src/parser/complex_type.rs |  5 +++--
 xsd-parser/src/parser/types.rs        | 10 +++-------
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/xsd-parser/src/parser/choice.rs b/xsd-parser/src/parser/choice.rs
index f286613..8f141bd 100644
--- a/xsd-parser/src/parser/choice.rs
+++ b/xsd-parser/src/parser/choice.rs
@@ -7,19 +7,37 @@ use crate::parser::{
 };
 
 pub fn parse_choice(choice: &Node) -> RsEntity {
+    let mut subtypes = vec![];
     let enum_cases = choice
         .children()
         .filter(|n| n.is_element() && n.xsd_type() == ElementType::Element)
         .map(|n| match parse_node(&n, choice) {
-            RsEntity::EnumCase(case) => case,
+            RsEntity::EnumCase(mut case) => {
+                if let (None, Some(mut ty)) = (&case.type_name, anonymous_type(&n)) {
+                    ty.set_name(format!("{}Type", case.name).as_str());
+                    case.type_name = Some(ty.name().to_string());
+                    subtypes.push(ty);
+                }
+                case
+            }
             _ => unreachable!("Elements in choice must be a enum variants"),
         })
         .collect();
 
     RsEntity::Enum(Enum {
         cases: enum_cases,
+        subtypes,
         type_name: "String".to_string(),
         source: EnumSource::Choice,
         ..Default::default()
     })
 }
+
+/// The type an element declares in place
+fn anonymous_type(element: &Node) -> Option<RsEntity> {
+    element
+        .children()
+        .filter(|n| matches!(n.xsd_type(), ElementType::SimpleType | ElementType::ComplexType))
+        .last()
+        .map(|content| parse_node(&content, element))
+}
diff --git a/xsd-parser/src/parser/complex_type.rs b/xsd-parser/src/parser/complex_type.rs
index 27ab6cf..25b5d57 100644
--- a/xsd-parser/src/parser/complex_type.rs
+++ b/xsd-parser/src/parser/complex_type.rs
@@ -60,8 +60,9 @@ pub fn parse_complex_type(node: &Node, parent: &Node) -> RsEntity {
         }
         RsEntity::Enum(en) => {
             en.name = format!("{}Choice", name);
-            if parent.xsd_type() != ElementType::Schema {
-                // The element this type belongs to names it, see set_name
+            if parent.xsd_type() != ElementType::Schema || !en.subtypes.is_empty() {
+                // The element this type belongs to names it, see set_name; types declared in
+                // place go to the module of the type
                 fields.push(enum_to_field(en.clone()));
                 return RsEntity::Struct(Struct {
                     name: name.to_string(),
diff --git a/xsd-parser/src/parser/types.rs b/xsd-parser/src/parser/types.rs
index 777e747..32009fb 100644
--- a/xsd-parser/src/parser/types.rs
+++ b/xsd-parser/src/parser/types.rs
@@ -57,9 +57,7 @@ impl Struct {
         }
 
         for subtype in &self.subtypes {
-            if let RsEntity::Struct(s) = subtype {
-                s.extend_base(types);
-            }
+            subtype.structs().iter().for_each(|s| s.extend_base(types));
         }
     }
 
@@ -115,10 +113,8 @@ impl StructField {
     }
 
     pub fn extend_base(&mut self, types: &HashMap<&String, &Struct>) {
-        for subtype in &mut self.subtypes {
-            if let RsEntity::Struct(st) = subtype {
-                st.extend_base(types);
-            }
+        for subtype in &self.subtypes {
+            subtype.structs().iter().for_each(|s| s.extend_base(types));
         }
     }
 }
-- 
2.43.0


From 3c150eef01f488d6305298f8a12d8de43562de15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:10 +0000
Subject: [PATCH 33/33] fix: keep enumerations as text where the values can not
 be told apart by name

---
 xsd-parser/src/parser/restriction.rs | 40 ++++++++++++++++++----------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/xsd-parser/src/parser/restriction.rs b/xsd-parser/src/parser/restriction.rs
index acf855c..7963852 100644
--- a/xsd-parser/src/parser/restriction.rs
+++ b/xsd-parser/src/parser/restriction.rs
@@ -1,19 +1,22 @@
-use std::cell::RefCell;
+use std::{cell::RefCell, collections::HashSet};
 
 use roxmltree::Node;
 
-use crate::parser::{
-    constants::tag,
-    node_parser::parse_node,
-    types::{
-        Enum, EnumCase, EnumSource, Facet, RsEntity, Struct, StructField, StructFieldSource,
-        TupleStruct,
+use crate::{
+    generator::default::default_format_type,
+    parser::{
+        constants::tag,
+        node_parser::parse_node,
+        types::{
+            Enum, EnumCase, EnumSource, Facet, RsEntity, Struct, StructField, StructFieldSource,
+            TupleStruct,
+        },
+        utils::{
+            attribute_groups_to_aliases, attributes_to_fields, enum_to_field, get_base,
+            get_documentation, get_parent_name,
+        },
+        xsd_elements::{ElementType, FacetType, RestrictionType, XsdNode},
     },
-    utils::{
-        attribute_groups_to_aliases, attributes_to_fields, enum_to_field, get_base,
-        get_documentation, get_parent_name,
-    },
-    xsd_elements::{ElementType, FacetType, RestrictionType, XsdNode},
 };
 
 const AVAILABLE_CONTENT_TYPES: [ElementType; 4] = [
@@ -39,7 +42,7 @@ fn simple_type_restriction(node: &Node) -> RsEntity {
 
     if is_simple_enumerations(node) {
         let cases = cases(facets.as_ref());
-        if !cases.is_empty() {
+        if !cases.is_empty() && has_distinct_names(&cases) {
             return RsEntity::Enum(Enum {
                 name: format!("{}Enum", get_parent_name(node)),
                 cases,
@@ -134,7 +137,16 @@ fn is_simple_enumerations(node: &Node) -> bool {
 
 fn is_simple_enumeration(node: &Node) -> bool {
     let val = node.attr_value().expect("Value required for xsd:enumeration");
-    !val.is_empty() && val.chars().all(|c| c.is_alphanumeric() || c == '-')
+    !val.is_empty() && val.chars().all(|c| c.is_ascii_alphanumeric() || c == '-')
+}
+
+// Values that differ in case or in hyphens only can not be told apart by their names
+fn has_distinct_names(cases: &[EnumCase]) -> bool {
+    let mut names = HashSet::new();
+    cases.iter().all(|case| {
+        let name = default_format_type(&case.name, &None);
+        !name.is_empty() && names.insert(name)
+    })
 }
 
 #[cfg(test)]
-- 
2.43.0

