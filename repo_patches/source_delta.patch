From 44f3d3b9b355136a464f8efef310ee1b8e2fa30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 01/66] fix: rdftk_names: build against the current rdftk_iri
 API (make_name is now inherent)

---
 rdftk_names/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_names/src/lib.rs b/rdftk_names/src/lib.rs
index 0ef0bcb..03f5b3b 100644
--- a/rdftk_names/src/lib.rs
+++ b/rdftk_names/src/lib.rs
@@ -132,7 +132,7 @@ macro_rules! namespace {
                 let _ = cache.insert(
                     $name.to_string(),
                     (
-                        <::rdftk_iri::Iri as ::rdftk_iri::IriExtra>::make_name(
+                        ::rdftk_iri::Iri::make_name(
                                 &NS_IRI,
                                 <::rdftk_iri::Name as ::std::str::FromStr>::from_str($name).unwrap()
                             ).unwrap(),
-- 
2.43.0


From 92f3572002c0d6afed379c39339677c3f9a748d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 02/66] fix: rdftk_core: build against the current rdftk_iri
 API (LocalName, Name, error types)

---
 rdftk_core/src/error.rs                 | 12 +++++++++---
 rdftk_core/src/model/graph.rs           |  2 +-
 rdftk_core/src/model/literal.rs         | 18 +++++++++---------
 rdftk_core/src/model/statement/bnode.rs |  8 ++++----
 rdftk_iri/src/error.rs                  |  4 +++-
 5 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/rdftk_core/src/error.rs b/rdftk_core/src/error.rs
index 887617f..fb79465 100644
--- a/rdftk_core/src/error.rs
+++ b/rdftk_core/src/error.rs
@@ -142,7 +142,7 @@ pub enum Error {
     ///
     /// An error parsing Name strings.
     ///
-    Name(::rdftk_iri::NameParseError),
+    Name(::rdftk_iri::error::NameParseError),
     ///
     /// An error occurred converting to UTF-8 text.
     ///
@@ -420,14 +420,20 @@ impl From<::rdftk_iri::Error> for Error {
     }
 }
 
+impl From<::rdftk_iri::error::UrlError> for Error {
+    fn from(source: ::rdftk_iri::error::UrlError) -> Self {
+        Self::Iri(source.into())
+    }
+}
+
 impl From<::language_tags::ParseError> for Error {
     fn from(source: ::language_tags::ParseError) -> Self {
         Self::LanguageTag(source)
     }
 }
 
-impl From<::rdftk_iri::NameParseError> for Error {
-    fn from(source: ::rdftk_iri::NameParseError) -> Self {
+impl From<::rdftk_iri::error::NameParseError> for Error {
+    fn from(source: ::rdftk_iri::error::NameParseError) -> Self {
         Self::Name(source)
     }
 }
diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 15ec049..43aed27 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -19,7 +19,7 @@ fn simple_graph_writer(graph: &Graph)
 use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_GRAPH_DUPLICATES, FEATURE_RDF_STAR};
 use crate::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
-use rdftk_iri::{Iri, IriExtra, IriPrefixMap, Name};
+use rdftk_iri::{Iri, IriPrefixMap, Name};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Display, Formatter};
 use std::hash::Hash;
diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 13e7ebe..64220eb 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -51,7 +51,7 @@
  */
 
 use crate::error::Error;
-use rdftk_iri::{Iri, Name, QName};
+use rdftk_iri::{Iri, LocalName, Name};
 use rdftk_names::{rdf, xsd};
 use std::cmp::Ordering;
 use std::fmt::{Debug, Display, Formatter};
@@ -372,7 +372,7 @@ impl DataType {
 
 impl From<Iri> for Literal {
     fn from(v: Iri) -> Self {
-        Self::with_data_type(v.as_ref(), DataType::Iri)
+        Self::with_data_type(AsRef::<str>::as_ref(&v), DataType::Iri)
     }
 }
 
@@ -395,7 +395,7 @@ impl TryFrom<Literal> for Iri {
         match value.data_type() {
             Some(dt) => {
                 if *dt == DataType::Iri {
-                    Ok(Iri::parse(value.lexical_form())?)
+                    Ok(value.lexical_form().parse::<Iri>()?)
                 } else {
                     Err(Error::InvalidLiteralTypeCooercion {
                         from_type: dt.to_string(),
@@ -578,20 +578,20 @@ impl PartialEq<f32> for Literal {
 // Variant QName
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
-impl From<QName> for Literal {
-    fn from(v: QName) -> Self {
+impl From<LocalName> for Literal {
+    fn from(v: LocalName) -> Self {
         Self::with_data_type(v, DataType::QName)
     }
 }
 
-impl From<&QName> for Literal {
-    fn from(v: &QName) -> Self {
+impl From<&LocalName> for Literal {
+    fn from(v: &LocalName) -> Self {
         Self::from(v.clone())
     }
 }
 
-impl PartialEq<QName> for Literal {
-    fn eq(&self, other: &QName) -> bool {
+impl PartialEq<LocalName> for Literal {
+    fn eq(&self, other: &LocalName) -> bool {
         *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::QName)
     }
 }
diff --git a/rdftk_core/src/model/statement/bnode.rs b/rdftk_core/src/model/statement/bnode.rs
index 208f4cc..ebe3374 100644
--- a/rdftk_core/src/model/statement/bnode.rs
+++ b/rdftk_core/src/model/statement/bnode.rs
@@ -1,4 +1,4 @@
-use rdftk_iri::{Name, NameParser, QName};
+use rdftk_iri::{LocalName, Name};
 use std::fmt::{Display, Formatter};
 use std::str::FromStr;
 use unique_id::sequence::SequenceGenerator as IDGenerator;
@@ -98,7 +98,7 @@ impl BlankNode {
         S: AsRef<str>,
     {
         let s: &str = s.as_ref();
-        NameParser::BlankNode.is_valid_str(if let Some(s) = s.strip_prefix(BLANK_NODE_PREFIX) {
+        Name::is_valid_str(if let Some(s) = s.strip_prefix(BLANK_NODE_PREFIX) {
             s
         } else {
             s
@@ -109,7 +109,7 @@ impl BlankNode {
     /// Return a qualified version of the blank node, i.e. with the reserved
     /// namespace value `"_"`.
     ///
-    pub fn to_qname(&self) -> QName {
-        QName::new_blank(Name::new_unchecked(&self.0)).unwrap()
+    pub fn to_qname(&self) -> LocalName {
+        LocalName::new_unchecked(BLANK_NODE_NAMESPACE, &self.0)
     }
 }
diff --git a/rdftk_iri/src/error.rs b/rdftk_iri/src/error.rs
index 73f3839..8cae3f6 100644
--- a/rdftk_iri/src/error.rs
+++ b/rdftk_iri/src/error.rs
@@ -8,7 +8,9 @@ use alloc::string::String;
 
 use strum::{EnumIs, EnumTryAs};
 use thiserror::Error;
-use url::ParseError as UrlError;
+
+/// The error returned by the `url` crate, and by the `FromStr` implementation for `Iri`.
+pub use url::ParseError as UrlError;
 
 ///
 /// The `Error` type for this crate.
-- 
2.43.0


From 5d6fdd3c66e07734c76eff83c9216044ccf5b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 03/66] fix: rdftk_io: build against the current rdftk_iri API
 (Namespace::name_string, Iri::from_str)

---
 rdftk_io/src/turtle/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index f1c2bb6..49cc714 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -535,7 +535,7 @@ impl TurtleWriter {
         let mappings = graph.prefix_mappings();
         if !mappings.is_empty() {
             for (prefix, namespace) in mappings.mappings().sorted() {
-                let prefix = prefix.as_ref().map(|n| n.as_ref()).unwrap_or("");
+                let prefix = prefix.name_string().unwrap_or("");
                 let mut namespace_str = namespace.to_string();
                 // If we have any base Iri conversions to do for any of the
                 // namespaces, then do it now:
@@ -777,7 +777,7 @@ impl TurtleWriter {
         trace!(name: "write_literal", ?literal);
         Ok(match literal.data_type() {
             Some(DataType::Iri) => {
-                let iri = Iri::parse(literal.lexical_form())?;
+                let iri = Iri::from_str(literal.lexical_form())?;
                 self.write_iri(w, graph, &iri)?
             }
             Some(DataType::Boolean)
-- 
2.43.0


From 1f4d5095bcb4ae31101aee6605dd0c1524adc24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 04/66] fix: rdftk_iri: Iri::split panicked on IRIs that cannot
 be a base (urn:, mailto:)

---
 rdftk_iri/src/iri.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index 37c22a7..0f3dad2 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -321,7 +321,8 @@ impl Iri {
             && !self.0.path().ends_with("/")
             && self.0.query().is_none()
         {
-            if let Ok(name) = Name::from_str(self.0.path_segments().unwrap().last().unwrap()) {
+            // There are no segments in the path of, for example, a URN or a `mailto` URL.
+            if let Ok(name) = Name::from_str(self.0.path_segments()?.last()?) {
                 let path = self.0.path();
                 let path = &path[0..path.len() - name.as_ref().len()];
                 Some((self.with_new_path(path), name))
-- 
2.43.0


From 3618230cc3a6b18ce031de33926492a028b1bfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 05/66] fix: rdftk_iri: Iri::split took a namespace IRI ending
 in '#' apart into a name that expands to a different IRI

---
 rdftk_iri/src/iri.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index 0f3dad2..4c87c39 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -317,7 +317,8 @@ impl Iri {
             } else {
                 None
             }
-        } else if !self.0.path().is_empty()
+        } else if self.0.fragment().is_none()
+            && !self.0.path().is_empty()
             && !self.0.path().ends_with("/")
             && self.0.query().is_none()
         {
-- 
2.43.0


From 76587b8c800c1368d0a093a38cd9538697c946d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 06/66] fix: rdftk_iri: deserialising Name and Namespace
 bypassed their grammar (a stored 'rdf' made Namespace::name_string panic)

---
 rdftk_iri/src/pname.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/rdftk_iri/src/pname.rs b/rdftk_iri/src/pname.rs
index 94427ea..6ed3553 100644
--- a/rdftk_iri/src/pname.rs
+++ b/rdftk_iri/src/pname.rs
@@ -98,6 +98,7 @@ pub enum PrefixedName {
 ///
 #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "String"))]
 pub struct Namespace(String);
 
 /// The character used to separate a [`Namespace`] prefix from a [`Name`] in a
@@ -145,6 +146,7 @@ pub const NAMESPACE_DEFAULT_STRING: &str = ":";
 ///
 #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "String"))]
 pub struct Name(String);
 
 ///
@@ -264,6 +266,14 @@ impl FromStr for Namespace {
     }
 }
 
+impl TryFrom<String> for Namespace {
+    type Error = NameParseError;
+
+    fn try_from(value: String) -> Result<Self, Self::Error> {
+        Self::from_str(&value)
+    }
+}
+
 impl AsRef<str> for Namespace {
     fn as_ref(&self) -> &str {
         &self.0
@@ -404,6 +414,14 @@ impl FromStr for Name {
     }
 }
 
+impl TryFrom<String> for Name {
+    type Error = NameParseError;
+
+    fn try_from(value: String) -> Result<Self, Self::Error> {
+        Self::from_str(&value)
+    }
+}
+
 impl AsRef<str> for Name {
     fn as_ref(&self) -> &str {
         &self.0
-- 
2.43.0


From 1bccfa9c1d666245bb7964f78865ed5cec912d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 07/66] fix: rdftk_core: IRIs were rendered in doubled angle
 brackets in statements, nodes, graph names and literals

---
 rdftk_core/src/model/graph.rs             | 2 +-
 rdftk_core/src/model/literal.rs           | 5 +++--
 rdftk_core/src/model/statement.rs         | 2 +-
 rdftk_core/src/model/statement/object.rs  | 2 +-
 rdftk_core/src/model/statement/subject.rs | 2 +-
 5 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 43aed27..0d698e0 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -81,7 +81,7 @@ impl Display for GraphName {
             "{}",
             match &self {
                 Self::BNode(node) => format!("_:{}", node),
-                Self::Iri(iri) => format!("<{}>", iri),
+                Self::Iri(iri) => format!("{}", iri),
             }
         )
     }
diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 64220eb..729d67d 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -384,7 +384,8 @@ impl From<&Iri> for Literal {
 
 impl PartialEq<Iri> for Literal {
     fn eq(&self, other: &Iri) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Iri)
+        self.lexical_form() == AsRef::<str>::as_ref(other)
+            && self.data_type() == Some(&DataType::Iri)
     }
 }
 
@@ -847,7 +848,7 @@ impl Display for Literal {
                     "\"{}\"{}",
                     self.lexical_form(),
                     match (self.data_type(), self.language()) {
-                        (Some(data_type), None) => format!("^^<{}>", data_type.as_iri()),
+                        (Some(data_type), None) => format!("^^{}", data_type.as_iri()),
                         (None, Some(language)) => format!("@{}", language),
                         _ => String::new(),
                     }
diff --git a/rdftk_core/src/model/statement.rs b/rdftk_core/src/model/statement.rs
index d8ff046..f2a07eb 100644
--- a/rdftk_core/src/model/statement.rs
+++ b/rdftk_core/src/model/statement.rs
@@ -62,7 +62,7 @@ impl Display for Statement {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         write!(
             f,
-            "{} <{}> {}",
+            "{} {} {}",
             &self.subject().to_string(),
             &self.predicate().to_string(),
             &self.object().to_string(),
diff --git a/rdftk_core/src/model/statement/object.rs b/rdftk_core/src/model/statement/object.rs
index 9443935..7c313a4 100644
--- a/rdftk_core/src/model/statement/object.rs
+++ b/rdftk_core/src/model/statement/object.rs
@@ -122,7 +122,7 @@ impl Display for ObjectNode {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::Blank(node) => write!(f, "{BLANK_NODE_NAMESPACE}:{node}"),
-            Self::Resource(iri) => write!(f, "<{iri}>"),
+            Self::Resource(iri) => write!(f, "{iri}"),
             Self::Literal(lit) => {
                 if f.alternate() {
                     write!(f, "{lit:#}")
diff --git a/rdftk_core/src/model/statement/subject.rs b/rdftk_core/src/model/statement/subject.rs
index 67dd8cd..427caf3 100644
--- a/rdftk_core/src/model/statement/subject.rs
+++ b/rdftk_core/src/model/statement/subject.rs
@@ -94,7 +94,7 @@ impl Display for SubjectNode {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::Blank(node) => write!(f, "{}:{}", BLANK_NODE_NAMESPACE, node),
-            Self::Resource(iri) => write!(f, "<{}>", iri),
+            Self::Resource(iri) => write!(f, "{}", iri),
             Self::Statement(st) => write!(f, "<< {} >>", st),
         }
     }
-- 
2.43.0


From 927d1a535ac37148f3c9e39dd391fbfe2f8ae322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 08/66] fix: rdftk_core: Graph::remove_all_for removed every
 statement except those of the subject

---
 rdftk_core/src/model/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 0d698e0..1860622 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -557,9 +557,9 @@ impl Graph {
             (Default::default(), Default::default()),
             |(mut keep, mut discard): (Vec<Statement>, Vec<Statement>), st| {
                 if st.subject() == subject {
-                    keep.push(st.clone());
-                } else {
                     discard.push(st.clone());
+                } else {
+                    keep.push(st.clone());
                 }
                 (keep, discard)
             },
-- 
2.43.0


From 5fcb1540b86a2dbf433cb72415d6cabae0e76966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 09/66] fix: rdftk_core: Graph::matches found nothing when any
 of subject, predicate and object was left open

---
 rdftk_core/src/model/graph.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 1860622..40847e0 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -374,9 +374,9 @@ impl Graph {
         self.statements
             .iter()
             .filter(|st| {
-                (subject.is_some() && st.subject() == subject.unwrap())
-                    && (predicate.is_some() && st.predicate() == predicate.unwrap())
-                    && (object.is_some() && st.object() == object.unwrap())
+                (subject.is_none() || st.subject() == subject.unwrap())
+                    && (predicate.is_none() || st.predicate() == predicate.unwrap())
+                    && (object.is_none() || st.object() == object.unwrap())
             })
             .collect()
     }
-- 
2.43.0


From 6cbb0f7cc595ab2e4740cfb9cc244abaeadcaaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 10/66] fix: rdftk_core: FEATURE_GRAPH_DUPLICATES was reported
 by the graphs that refuse duplicates, and only by them

---
 rdftk_core/src/model/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 40847e0..52f1ff1 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -199,7 +199,7 @@ impl GraphName {
 
 impl Featured for Graph {
     fn supports_feature(&self, feature: &Iri) -> bool {
-        (*feature == *FEATURE_GRAPH_DUPLICATES && self.statements.is_unique())
+        (*feature == *FEATURE_GRAPH_DUPLICATES && !self.statements.is_unique())
             || *feature == *FEATURE_RDF_STAR
     }
 }
-- 
2.43.0


From 809889b5e3510880226b4dfacb7b6aba52c99c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 11/66] fix: rdftk_core: Graph::skolemize left the blank nodes
 inside nested statements and collections, and dropped the graph's name and
 prefix mappings

---
 rdftk_core/src/model/graph.rs | 79 ++++++++++++++++++++++++++---------
 1 file changed, 60 insertions(+), 19 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 52f1ff1..63a43f9 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -18,7 +18,7 @@ fn simple_graph_writer(graph: &Graph)
 
 use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_GRAPH_DUPLICATES, FEATURE_RDF_STAR};
-use crate::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
+use crate::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::{Iri, IriPrefixMap, Name};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Display, Formatter};
@@ -617,26 +617,17 @@ impl Graph {
         let mut mapping: HashMap<BlankNode, Iri> = Default::default();
 
         let mut new_graph = Self::default();
+        new_graph.set_prefix_mappings(self.prefix_mappings().clone());
+        match self.name() {
+            Some(GraphName::BNode(blank)) => {
+                new_graph.set_name(skolemize_blank(blank, base, &mut mapping)?.into());
+            }
+            Some(name) => new_graph.set_name(name.clone()),
+            None => {}
+        }
 
         for statement in self.statements() {
-            let mut new_statement = statement.clone();
-            if let Some(blank) = new_statement.subject().as_blank() {
-                if !mapping.contains_key(blank) {
-                    let _ = mapping.insert(blank.clone(), base.genid()?);
-                }
-                let name = mapping.get(blank).unwrap().clone();
-                let subject = SubjectNode::from(name);
-                new_statement.set_subject(subject);
-            }
-            if let Some(blank) = new_statement.object().as_blank() {
-                if !mapping.contains_key(blank) {
-                    let _ = mapping.insert(blank.clone(), base.genid()?);
-                }
-                let name = mapping.get(blank).unwrap().clone();
-                let object = ObjectNode::from(name);
-                new_statement.set_object(object);
-            }
-            new_graph.insert(new_statement);
+            new_graph.insert(skolemize_statement(statement, base, &mut mapping)?);
         }
 
         Ok(new_graph)
@@ -688,6 +679,56 @@ impl Graph {
     }
 }
 
+// ------------------------------------------------------------------------------------------------
+// Implementations > Skolemize
+// ------------------------------------------------------------------------------------------------
+
+fn skolemize_blank(
+    blank: &BlankNode,
+    base: &Iri,
+    mapping: &mut HashMap<BlankNode, Iri>,
+) -> Result<Iri, Error> {
+    if !mapping.contains_key(blank) {
+        let _ = mapping.insert(blank.clone(), base.genid()?);
+    }
+    Ok(mapping.get(blank).unwrap().clone())
+}
+
+fn skolemize_statement(
+    statement: &Statement,
+    base: &Iri,
+    mapping: &mut HashMap<BlankNode, Iri>,
+) -> Result<Statement, Error> {
+    let subject = match statement.subject() {
+        SubjectNode::Blank(blank) => skolemize_blank(blank, base, mapping)?.into(),
+        SubjectNode::Statement(nested) => skolemize_statement(nested, base, mapping)?.into(),
+        subject => subject.clone(),
+    };
+    let object = skolemize_object(statement.object(), base, mapping)?;
+    Ok(Statement::new(
+        subject,
+        statement.predicate().clone(),
+        object,
+    ))
+}
+
+fn skolemize_object(
+    object: &ObjectNode,
+    base: &Iri,
+    mapping: &mut HashMap<BlankNode, Iri>,
+) -> Result<ObjectNode, Error> {
+    Ok(match object {
+        ObjectNode::Blank(blank) => skolemize_blank(blank, base, mapping)?.into(),
+        ObjectNode::Statement(nested) => skolemize_statement(nested, base, mapping)?.into(),
+        ObjectNode::Collection(collection) => collection
+            .iter()
+            .map(|member| skolemize_object(member, base, mapping))
+            .collect::<Result<Collection, Error>>()?
+            .into(),
+        object => object.clone(),
+    })
+}
+
 // ------------------------------------------------------------------------------------------------
 // Implementations > Statements Enum
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 9c20dc728c9cdad225f7ae470550fd76ccdee031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 12/66] fix: rdftk_core: Graph::simplify left nested statements
 and collections behind below the first level, and dropped the prefix mappings

---
 rdftk_core/src/model/graph.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 63a43f9..8c8f53b 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -20,7 +20,7 @@ use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_GRAPH_DUPLICATES, FEATURE_RDF_STAR};
 use crate::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::{Iri, IriPrefixMap, Name};
-use std::collections::{HashMap, HashSet};
+use std::collections::{HashMap, HashSet, VecDeque};
 use std::fmt::{Debug, Display, Formatter};
 use std::hash::Hash;
 use std::iter::FusedIterator;
@@ -645,33 +645,36 @@ impl Graph {
         if let Some(name) = self.name() {
             new_graph.set_name(name.clone());
         }
-        for statement in self.statements() {
+        new_graph.set_prefix_mappings(self.prefix_mappings().clone());
+        // reification may yield statements which themselves need to be simplified.
+        let mut pending: VecDeque<Statement> = self.statements().cloned().collect();
+        while let Some(statement) = pending.pop_front() {
             if let Some(subject_statement) = statement.subject().as_statement() {
                 let (subject, statements) = subject_statement.reify()?;
-                new_graph.insert(Statement::new(
+                pending.push_back(Statement::new(
                     subject,
                     statement.predicate().clone(),
                     statement.object().clone(),
                 ));
-                new_graph.extend(statements);
+                pending.extend(statements);
             } else if let Some(object_statement) = statement.object().as_statement() {
                 let (subject, statements) = object_statement.reify()?;
-                new_graph.insert(Statement::new(
+                pending.push_back(Statement::new(
                     statement.subject().clone(),
                     statement.predicate().clone(),
                     subject.to_object(),
                 ));
-                new_graph.extend(statements);
+                pending.extend(statements);
             } else if let Some(object_collection) = statement.object().as_collection() {
                 let (subject, statements) = object_collection.reify()?;
-                new_graph.insert(Statement::new(
+                pending.push_back(Statement::new(
                     statement.subject().clone(),
                     statement.predicate().clone(),
                     subject.to_object(),
                 ));
-                new_graph.extend(statements);
+                pending.extend(statements);
             } else {
-                new_graph.insert(statement.clone());
+                new_graph.insert(statement);
             }
         }
 
-- 
2.43.0


From 3485e45e5cd94783a4e0dc805b814c5938d9fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 13/66] fix: rdftk_core: DataType::from(Iri) did not know
 base64Binary, date, dateTime, decimal, hexBinary, language and time

---
 rdftk_core/src/model/literal.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 729d67d..0a24b1d 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -318,6 +318,20 @@ impl From<Iri> for DataType {
             Self::UnsignedByte
         } else if &iri == xsd::duration() {
             Self::Duration
+        } else if &iri == xsd::base64_binary() {
+            Self::Base64Binary
+        } else if &iri == xsd::date() {
+            Self::Date
+        } else if &iri == xsd::date_time() {
+            Self::DateTime
+        } else if &iri == xsd::decimal() {
+            Self::Decimal
+        } else if &iri == xsd::hex_binary() {
+            Self::HexBinary
+        } else if &iri == xsd::language() {
+            Self::Language
+        } else if &iri == xsd::time() {
+            Self::Time
         } else if &iri == rdf::xml_literal() {
             Self::XmlLiteral
         } else {
-- 
2.43.0


From 381b41c85be42ce76a8b69827b9e7e2cc3d5431a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 14/66] fix: rdftk_core: literals escaped control and combining
 characters in Rust's notation, which is not RDF and cannot be read back

---
 rdftk_core/src/model/literal.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 0a24b1d..bf302cc 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -1037,8 +1037,21 @@ fn escape_string<S>(value: S) -> String
 where
     S: Into<String>,
 {
-    let formatted = format!("{:?}", value.into());
-    formatted[1..formatted.len() - 1].to_string()
+    // these are the escapes of N-Triples; Rust's own `\u{..}` and `\0` cannot be read back.
+    let value: String = value.into();
+    let mut escaped = String::with_capacity(value.len());
+    for c in value.chars() {
+        match c {
+            '\\' => escaped.push_str("\\\\"),
+            '"' => escaped.push_str("\\\""),
+            '\n' => escaped.push_str("\\n"),
+            '\r' => escaped.push_str("\\r"),
+            '\t' => escaped.push_str("\\t"),
+            c if c.is_control() => escaped.push_str(&format!("\\u{:04X}", c as u32)),
+            c => escaped.push(c),
+        }
+    }
+    escaped
 }
 
 fn hex_encode(value: &[u8]) -> String {
-- 
2.43.0


From a0eb6c89c7534d0004b75e118ef0f9e0aedd59f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 15/66] fix: rdftk_core: the full form of an anyURI literal was
 rendered as a resource

---
 rdftk_core/src/model/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index bf302cc..359b629 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -840,7 +840,7 @@ impl Eq for Literal {}
 impl Display for Literal {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match (self.data_type(), f.alternate()) {
-            (Some(DataType::Iri), _) => write!(f, "<{}>", self.lexical_form()),
+            (Some(DataType::Iri), false) => write!(f, "<{}>", self.lexical_form()),
             (
                 Some(DataType::Boolean)
                 | Some(DataType::Long)
-- 
2.43.0


From 549cc520e018bf42ca44d2f20642f698d36771c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 16/66] fix: rdftk_core: a resource nested in a Resource was
 linked to its owner instead of to itself

---
 rdftk_core/src/model/resource.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/resource.rs b/rdftk_core/src/model/resource.rs
index 2a73cc6..b01efd0 100644
--- a/rdftk_core/src/model/resource.rs
+++ b/rdftk_core/src/model/resource.rs
@@ -686,7 +686,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                     match object {
                         ResourceObject::Resource(resource) => {
                             flatten(resource, sts);
-                            subject.to_object()
+                            resource.subject.to_object()
                         }
                         ResourceObject::Literal(literal) => ObjectNode::from(literal.clone()),
                         _ => unreachable!(),
-- 
2.43.0


From 5a9bcfa2c816e4ce2dfca641854601b5aecc21ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 17/66] fix: rdftk_core: containers built by Resource numbered
 their members from rdf:_0 instead of rdf:_1

---
 rdftk_core/src/model/resource.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/resource.rs b/rdftk_core/src/model/resource.rs
index b01efd0..3fb3e38 100644
--- a/rdftk_core/src/model/resource.rs
+++ b/rdftk_core/src/model/resource.rs
@@ -663,7 +663,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                             flatten(resource, sts);
                             sts.push(Statement::new(
                                 container.clone(),
-                                rdf::member(index),
+                                rdf::member(index + 1),
                                 resource.subject.to_object(),
                             ));
                         }
@@ -672,7 +672,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                         for (index, literal) in lc.values.iter().enumerate() {
                             sts.push(Statement::new(
                                 container.clone(),
-                                rdf::member(index),
+                                rdf::member(index + 1),
                                 literal,
                             ));
                         }
-- 
2.43.0


From 6cbc84bab78e9672c62524b972e8ef970ae100bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 18/66] fix: rdftk_io: the writers wrapped IRIs in doubled
 angle brackets (N-Triples, N-Quads, Turtle) or wrapped bare ones (JSON, XML,
 Dot)

---
 rdftk_io/src/dot/writer.rs    |  6 +++---
 rdftk_io/src/json/writer.rs   |  6 +++---
 rdftk_io/src/nq/writer.rs     |  4 ++--
 rdftk_io/src/nt/writer.rs     |  4 ++--
 rdftk_io/src/turtle/writer.rs | 20 ++++++++++----------
 rdftk_io/src/xml/reader.rs    |  2 +-
 rdftk_io/src/xml/writer.rs    | 20 ++++++++++----------
 7 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index fdbf428..2b31354 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -296,7 +296,7 @@ impl ObjectWriter<Graph> for DotWriter {
                 self.subject_id(statement.subject()),
                 self.object_id(statement.object()),
                 match mappings.compress(statement.predicate()) {
-                    None => statement.predicate().to_string(),
+                    None => format!("{:#}", statement.predicate()),
                     Some(qname) => qname.to_string(),
                 }
             )?;
@@ -394,7 +394,7 @@ impl DotWriter {
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Iri,
-                        label: node.as_resource().unwrap().to_string(),
+                        label: format!("{:#}", node.as_resource().unwrap()),
                     },
                 );
             }
@@ -423,7 +423,7 @@ impl DotWriter {
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Iri,
-                        label: node.as_resource().unwrap().to_string(),
+                        label: format!("{:#}", node.as_resource().unwrap()),
                     },
                 );
             } else if node.is_literal() {
diff --git a/rdftk_io/src/json/writer.rs b/rdftk_io/src/json/writer.rs
index 63d2590..5e13608 100644
--- a/rdftk_io/src/json/writer.rs
+++ b/rdftk_io/src/json/writer.rs
@@ -89,7 +89,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         );
                         let _ = object_map.insert(
                             OBJ_KEY_VALUE.to_string(),
-                            Value::String(object.as_resource().unwrap().to_string()),
+                            Value::String(format!("{:#}", object.as_resource().unwrap())),
                         );
                     } else if object.is_literal() {
                         let literal = object.as_literal().unwrap();
@@ -110,7 +110,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         if let Some(data_type) = literal.data_type() {
                             let _ = object_map.insert(
                                 OBJ_KEY_DATATYPE.to_string(),
-                                Value::String(data_type.as_iri().to_string()),
+                                Value::String(format!("{:#}", data_type.as_iri())),
                             );
                         }
                     } else {
@@ -118,7 +118,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                     }
                     objects.push(Value::Object(object_map));
                 }
-                let _ = predicate_map.insert(predicate.to_string(), Value::Array(objects));
+                let _ = predicate_map.insert(format!("{predicate:#}"), Value::Array(objects));
             }
             let _ = json_graph.insert(subject.to_string(), Value::Object(predicate_map));
         }
diff --git a/rdftk_io/src/nq/writer.rs b/rdftk_io/src/nq/writer.rs
index 2c4fd2d..99d4630 100644
--- a/rdftk_io/src/nq/writer.rs
+++ b/rdftk_io/src/nq/writer.rs
@@ -47,9 +47,9 @@ impl ObjectWriter<Graph> for NQuadWriter {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
                     if let Some(graph_name) = graph_name {
-                        writeln!(w, "{} <{}> {} {} .", subject, predicate, object, graph_name)?;
+                        writeln!(w, "{} {} {} {} .", subject, predicate, object, graph_name)?;
                     } else {
-                        writeln!(w, "{} <{}> {} .", subject, predicate, object)?;
+                        writeln!(w, "{} {} {} .", subject, predicate, object)?;
                     }
                 }
             }
diff --git a/rdftk_io/src/nt/writer.rs b/rdftk_io/src/nt/writer.rs
index 08151e1..b3e8093 100644
--- a/rdftk_io/src/nt/writer.rs
+++ b/rdftk_io/src/nt/writer.rs
@@ -38,9 +38,9 @@ impl ObjectWriter<Graph> for NTripleWriter {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
                     if self.options().force_string_literals {
-                        writeln!(w, "{subject} <{predicate}> {object:#} .")?;
+                        writeln!(w, "{subject} {predicate} {object:#} .")?;
                     } else {
-                        writeln!(w, "{subject} <{predicate}> {object} .")?;
+                        writeln!(w, "{subject} {predicate} {object} .")?;
                     }
                 }
             }
diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 49cc714..ea24bec 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -515,7 +515,7 @@ impl TurtleWriter {
             writeln!(
                 w,
                 "{decl} {IRI_START}{}{IRI_END}{eos}",
-                base.to_string().as_str()
+                AsRef::<str>::as_ref(*base)
             )?;
             if !self.options.use_intellij_style() {
                 writeln!(w)?;
@@ -536,15 +536,15 @@ impl TurtleWriter {
         if !mappings.is_empty() {
             for (prefix, namespace) in mappings.mappings().sorted() {
                 let prefix = prefix.name_string().unwrap_or("");
-                let mut namespace_str = namespace.to_string();
+                let mut namespace_str = format!("{namespace:#}");
                 // If we have any base Iri conversions to do for any of the
                 // namespaces, then do it now:
                 for (from_base, to_base) in self.options.convert_base().iter() {
-                    let from_base_str = from_base.to_string();
+                    let from_base_str = format!("{from_base:#}");
                     if namespace_str.starts_with(from_base_str.as_str()) {
                         namespace_str = format!(
                             "{}{}",
-                            to_base.to_string().as_str(),
+                            AsRef::<str>::as_ref(to_base),
                             &namespace_str[from_base_str.len()..]
                         );
                         break;
@@ -726,10 +726,10 @@ impl TurtleWriter {
     /// Turtle as if it's an Iri with the default base.
     fn compress_iri(&self, graph: &Graph, iri: &Iri) -> Result<String> {
         trace!(name: "compress_iri", ?iri);
-        let mut iri_str = iri.to_string();
+        let mut iri_str = format!("{iri:#}");
         if let Some(id_base) = &self.options.id_base() {
             if let Some(ref convert_to_id_base) = self.options.convert_to_id_base() {
-                let target_id_base = convert_to_id_base.to_string();
+                let target_id_base = format!("{convert_to_id_base:#}");
                 if iri_str.starts_with(target_id_base.as_str()) {
                     return Ok(format!(
                         "{IRI_START}{}{IRI_END}",
@@ -737,7 +737,7 @@ impl TurtleWriter {
                     ));
                 }
             }
-            let id_base_str = id_base.to_string();
+            let id_base_str = format!("{id_base:#}");
             if iri_str.starts_with(id_base_str.as_str()) {
                 return Ok(format!(
                     "{IRI_START}{}{IRI_END}",
@@ -746,18 +746,18 @@ impl TurtleWriter {
             }
         }
         for (from_base, to_base) in self.options.convert_base().iter() {
-            let from_base_str = from_base.to_string();
+            let from_base_str = format!("{from_base:#}");
             if iri_str.starts_with(from_base_str.as_str()) {
                 iri_str = format!(
                     "{}{}",
-                    to_base.to_string().as_str(),
+                    AsRef::<str>::as_ref(to_base),
                     &iri_str[from_base_str.len()..]
                 );
             }
         }
         let iri = Iri::from_str(iri_str.as_str())?;
         Ok(match graph.prefix_mappings().compress(&iri) {
-            None => format!("{IRI_START}{iri}{IRI_END}"),
+            None => format!("{iri}"),
             Some(_qname) => format!("{_qname}"),
         })
     }
diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 3f76300..92f9a02 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -198,7 +198,7 @@ fn parse_subject_element<R: Read>(
                     }
                     Some(SubjectType::RelativeResource(subject)) => {
                         // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
-                        let uri = format!("{}{}", xml_base.as_ref().unwrap(), subject);
+                        let uri = format!("{:#}{}", xml_base.as_ref().unwrap(), subject);
                         value_to_iri(&uri)?.into()
                     }
                     Some(SubjectType::BlankNamed(subject)) => {
diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 091a67b..88f4820 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -197,31 +197,31 @@ impl XmlWriter {
     fn default_mappings() -> HashMap<String, String> {
         let mappings: HashMap<String, String> = [
             (
-                dc::elements::namespace().to_string(),
+                dc::elements::namespace_str().to_string(),
                 dc::elements::default_prefix().to_string(),
             ),
             (
-                foaf::namespace().to_string(),
+                foaf::namespace_str().to_string(),
                 foaf::default_prefix().to_string(),
             ),
             (
-                geo::namespace().to_string(),
+                geo::namespace_str().to_string(),
                 geo::default_prefix().to_string(),
             ),
             (
-                owl::namespace().to_string(),
+                owl::namespace_str().to_string(),
                 owl::default_prefix().to_string(),
             ),
             (
-                rdf::namespace().to_string(),
+                rdf::namespace_str().to_string(),
                 rdf::default_prefix().to_string(),
             ),
             (
-                rdfs::namespace().to_string(),
+                rdfs::namespace_str().to_string(),
                 rdfs::default_prefix().to_string(),
             ),
             (
-                xsd::namespace().to_string(),
+                xsd::namespace_str().to_string(),
                 xsd::default_prefix().to_string(),
             ),
         ]
@@ -274,7 +274,7 @@ impl XmlWriter {
                 };
 
                 if let Some(iri) = object.as_resource() {
-                    let iri = iri.to_string();
+                    let iri = format!("{iri:#}");
                     element = element.attr(RDF_RESOURCE.as_str(), &iri);
                     writer.write(element).map_err(xml_error)?;
                 } else if let Some(blank) = object.as_blank() {
@@ -294,7 +294,7 @@ impl XmlWriter {
                         element = element.attr(ATTRIBUTE_XML_LANG_PREFIXED, &language)
                     }
                     if let Some(data_type) = literal.data_type() {
-                        let dt_iri = data_type.as_iri().to_string();
+                        let dt_iri = format!("{:#}", data_type.as_iri());
                         writer
                             .write(element.attr(RDF_DATATYPE.as_str(), &dt_iri))
                             .map_err(xml_error)?
@@ -334,7 +334,7 @@ fn xml_error(e: xml::writer::Error) -> Error {
 }
 
 fn split_uri(iri: &Iri) -> (String, String) {
-    let iri = iri.to_string();
+    let iri = format!("{iri:#}");
     let index = iri
         .chars()
         .rev()
-- 
2.43.0


From b4405f2cdc9facb812d7b6fa96bba64843fb3aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 19/66] fix: rdftk_io: N-Triples and N-Quads were written with
 bare numbers, booleans and IRIs for literals, which the format does not have

---
 rdftk_io/src/nq/writer.rs |  4 ++--
 rdftk_io/src/nt/writer.rs | 11 ++++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/nq/writer.rs b/rdftk_io/src/nq/writer.rs
index 99d4630..004113f 100644
--- a/rdftk_io/src/nq/writer.rs
+++ b/rdftk_io/src/nq/writer.rs
@@ -47,9 +47,9 @@ impl ObjectWriter<Graph> for NQuadWriter {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
                     if let Some(graph_name) = graph_name {
-                        writeln!(w, "{} {} {} {} .", subject, predicate, object, graph_name)?;
+                        writeln!(w, "{} {} {:#} {} .", subject, predicate, object, graph_name)?;
                     } else {
-                        writeln!(w, "{} {} {} .", subject, predicate, object)?;
+                        writeln!(w, "{} {} {:#} .", subject, predicate, object)?;
                     }
                 }
             }
diff --git a/rdftk_io/src/nt/writer.rs b/rdftk_io/src/nt/writer.rs
index b3e8093..8725a25 100644
--- a/rdftk_io/src/nt/writer.rs
+++ b/rdftk_io/src/nt/writer.rs
@@ -8,7 +8,7 @@ use std::io::Write;
 // Public Types
 // ------------------------------------------------------------------------------------------------
 
-#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash)]
+#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
 pub struct NTripleWriterOptions {
     force_string_literals: bool,
 }
@@ -63,6 +63,15 @@ impl HasOptions<NTripleWriterOptions> for NTripleWriter {
 
 // ------------------------------------------------------------------------------------------------
 
+impl Default for NTripleWriterOptions {
+    fn default() -> Self {
+        // N-Triples has no unquoted form of literals, turning this off produces a non-standard file.
+        Self {
+            force_string_literals: true,
+        }
+    }
+}
+
 impl NTripleWriterOptions {
     pub fn force_string_literals(self, flag: bool) -> Self {
         let mut self_mut = self;
-- 
2.43.0


From 2c279bbaf30b0a8f5414465ee8ef5ff6efb0f896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 20/66] fix: rdftk_io: the N-Triples reader gave well-known
 data types an identity unequal to the one they were written with

---
 rdftk_io/src/common/parser/ntriples.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/common/parser/ntriples.rs b/rdftk_io/src/common/parser/ntriples.rs
index d54adf0..fdc339d 100644
--- a/rdftk_io/src/common/parser/ntriples.rs
+++ b/rdftk_io/src/common/parser/ntriples.rs
@@ -148,7 +148,7 @@ fn rdf_literal(input_pair: Pair<'_, Rule>) -> Result<Literal, Error> {
         if let Some(other) = inner_pair.next() {
             match other.as_rule() {
                 Rule::IRIREF => {
-                    let data_type = DataType::Other(iri_ref(other)?);
+                    let data_type = DataType::from(iri_ref(other)?);
                     Ok(Literal::with_data_type(&lexical_form, data_type))
                 }
                 Rule::LANGTAG => {
-- 
2.43.0


From cab3ee4595154650bb964778c35afcaafed3ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 21/66] fix: rdftk_io: the N-Triples reader printed every
 language tag to standard output

---
 rdftk_io/src/common/parser/ntriples.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rdftk_io/src/common/parser/ntriples.rs b/rdftk_io/src/common/parser/ntriples.rs
index fdc339d..4f5900c 100644
--- a/rdftk_io/src/common/parser/ntriples.rs
+++ b/rdftk_io/src/common/parser/ntriples.rs
@@ -219,10 +219,8 @@ fn lang_tag(input_pair: Pair<'_, Rule>) -> Result<LanguageTag, Error> {
 
     if input_pair.as_rule() == Rule::LANGTAG {
         let tag = input_pair.as_str().to_string();
-        println!("**{tag}**");
         // strip the leading '@'
         let tag = &tag[1..];
-        println!("**{tag}**");
         Ok(LanguageTag::parse(tag)?)
     } else {
         Err(pest_error!(unexpected RULE_FN, &input_pair, [Rule::LANGTAG]))
-- 
2.43.0


From 80cf2961f3c681d76574d393517b59eb2401f4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 22/66] fix: rdftk_io: the N-Triples reader kept the escapes of
 a string as part of its value, and panicked on an escaped surrogate in an IRI

---
 rdftk_io/src/common/parser/ntriples.rs | 62 +++++++++++++-------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/rdftk_io/src/common/parser/ntriples.rs b/rdftk_io/src/common/parser/ntriples.rs
index 4f5900c..0e375a5 100644
--- a/rdftk_io/src/common/parser/ntriples.rs
+++ b/rdftk_io/src/common/parser/ntriples.rs
@@ -5,7 +5,6 @@ use rdftk_core::model::graph::Graph;
 use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
 use rdftk_core::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::Iri;
-use regex::Regex;
 use std::str::FromStr;
 
 // ------------------------------------------------------------------------------------------------
@@ -179,7 +178,7 @@ fn string(input_pair: Pair<'_, Rule>) -> Result<String, Error> {
             Rule::STRING_LITERAL_QUOTE => {
                 let inner_pair = inner_pair.into_inner().next().unwrap();
                 if inner_pair.as_rule() == Rule::QUOTE_INNER {
-                    Ok(inner_pair.as_str().to_string())
+                    unescape(inner_pair.as_str())
                 } else {
                     Err(pest_error!(
                         unexpected
@@ -207,7 +206,7 @@ fn iri_ref(input_pair: Pair<'_, Rule>) -> Result<Iri, Error> {
     if input_pair.as_rule() == Rule::IRIREF {
         let iri = input_pair.as_str().to_string();
         // strip the '<' and '>' characters.
-        let iri_str = unescape_iri(&iri[1..iri.len() - 1]);
+        let iri_str = unescape(&iri[1..iri.len() - 1])?;
         Ok(Iri::from_str(&iri_str)?)
     } else {
         Err(pest_error!(unexpected RULE_FN, &input_pair, [Rule::IRIREF]))
@@ -229,34 +228,35 @@ fn lang_tag(input_pair: Pair<'_, Rule>) -> Result<LanguageTag, Error> {
 
 // ------------------------------------------------------------------------------------------------
 
-lazy_static::lazy_static! {
-    static ref UNICODE_ESC: Regex =
-        Regex::new(r"(\\U[[:xdigit:]]{8})|(\\u[[:xdigit:]]{4})").unwrap();
-}
-
-fn unescape_iri(iri: &str) -> String {
-    let (new_iri, end) =
-        UNICODE_ESC
-            .captures_iter(iri)
-            .fold((String::new(), 0), |(so_far, start), cap| {
-                let cap = cap.get(0).unwrap();
-                (
-                    format!(
-                        "{}{}{}",
-                        so_far,
-                        &iri[start..cap.start()],
-                        unescape_uchar(cap.as_str())
-                    ),
-                    cap.end(),
-                )
-            });
-
-    format!("{}{}", new_iri, &iri[end..])
+/// Replace the `ECHAR` and `UCHAR` escapes in the text of an IRI, or a string literal.
+fn unescape(text: &str) -> Result<String, Error> {
+    let mut unescaped = String::with_capacity(text.len());
+    let mut rest = text;
+    while let Some(index) = rest.find('\\') {
+        unescaped.push_str(&rest[..index]);
+        let escape = &rest[index..];
+        let (c, length) = match escape.chars().nth(1) {
+            Some('t') => (Some('\t'), 2),
+            Some('b') => (Some('\u{8}'), 2),
+            Some('n') => (Some('\n'), 2),
+            Some('r') => (Some('\r'), 2),
+            Some('f') => (Some('\u{C}'), 2),
+            Some(c @ ('"' | '\'' | '\\')) => (Some(c), 2),
+            Some('u') => (unescape_uchar(escape.get(2..6)), 6),
+            Some('U') => (unescape_uchar(escape.get(2..10)), 10),
+            _ => (None, 0),
+        };
+        unescaped.push(c.ok_or_else(|| Error::ParserUnexpected {
+            rule_fn: "unescape".into(),
+            given: escape.chars().take(10).collect(),
+            expecting: vec!["ECHAR".into(), "UCHAR".into()],
+        })?);
+        rest = &escape[length..];
+    }
+    unescaped.push_str(rest);
+    Ok(unescaped)
 }
 
-fn unescape_uchar(uchar: &str) -> char {
-    use std::char;
-    let uchar = &uchar[2..];
-    let uchar_u32 = u32::from_str_radix(uchar, 16).unwrap();
-    char::from_u32(uchar_u32).unwrap()
+fn unescape_uchar(hex_digits: Option<&str>) -> Option<char> {
+    char::from_u32(u32::from_str_radix(hex_digits?, 16).ok()?)
 }
-- 
2.43.0


From ad2f9787fc563bd45d170cf4e2c24c4abea8ce29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 23/66] fix: rdftk_io: blank nodes and subjects written as
 RDF/JSON could not be read back (a one-letter blank node made the reader
 panic)

---
 rdftk_io/src/json/reader.rs | 9 +++++++--
 rdftk_io/src/json/writer.rs | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/json/reader.rs b/rdftk_io/src/json/reader.rs
index 4d468be..30ee13f 100644
--- a/rdftk_io/src/json/reader.rs
+++ b/rdftk_io/src/json/reader.rs
@@ -100,7 +100,12 @@ fn parse_statements(
         let subject = if let Some(subject) = subject.strip_prefix(BNODE_PREFIX) {
             BlankNode::from_str(subject)?.into()
         } else {
-            Iri::from_str(subject)?.into()
+            // the writer has the subject, unlike the predicates, in its `<..>` form.
+            let iri = subject
+                .strip_prefix('<')
+                .and_then(|s| s.strip_suffix('>'))
+                .unwrap_or(subject);
+            Iri::from_str(iri)?.into()
         };
         for (predicate, objects) in json.iter() {
             parse_predicates(&subject, predicate, objects, graph)?;
@@ -232,7 +237,7 @@ fn parse_bnode_object(
 ) -> Result<(), Error> {
     parse_rule!("parse_bnode_object" entry);
     if let Some(Value::String(s)) = object.get(OBJ_KEY_VALUE) {
-        let object = BlankNode::from_str(&s[2..])?;
+        let object = BlankNode::from_str(s.strip_prefix(BNODE_PREFIX).unwrap_or(s))?;
         let st = Statement::new(subject.clone(), predicate.clone(), object);
         graph.insert(st);
         Ok(())
diff --git a/rdftk_io/src/json/writer.rs b/rdftk_io/src/json/writer.rs
index 5e13608..c1dad7b 100644
--- a/rdftk_io/src/json/writer.rs
+++ b/rdftk_io/src/json/writer.rs
@@ -80,7 +80,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         );
                         let _ = object_map.insert(
                             OBJ_KEY_VALUE.to_string(),
-                            Value::String(object.as_blank().unwrap().to_string()),
+                            Value::String(object.to_string()),
                         );
                     } else if object.is_resource() {
                         let _ = object_map.insert(
-- 
2.43.0


From fe8ea77779b59704e657c2f2f98ff2156ad1122b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:04 +0000
Subject: [PATCH 24/66] fix: rdftk_io: JSON and XML were written with the
 N-Triples escapes of a literal in place of its value

---
 rdftk_core/src/model/literal.rs | 33 +++++++++++++++++++++++++++++++++
 rdftk_io/src/json/writer.rs     |  2 +-
 rdftk_io/src/xml/writer.rs      |  2 +-
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 359b629..841dcf0 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -1000,6 +1000,13 @@ impl Literal {
         &self.lexical_form
     }
 
+    ///
+    /// Return the value this literal was constructed from, its lexical form without the escapes.
+    ///
+    pub fn unescaped_form(&self) -> String {
+        unescape_string(&self.lexical_form)
+    }
+
     ///
     /// Returns `true` if this literal has a specified data type, else `false`.
     ///
@@ -1054,6 +1061,32 @@ where
     escaped
 }
 
+/// The inverse of `escape_string`.
+fn unescape_string(value: &str) -> String {
+    let mut unescaped = String::with_capacity(value.len());
+    let mut chars = value.chars();
+    while let Some(c) = chars.next() {
+        unescaped.push(match c {
+            '\\' => match chars.next() {
+                Some('n') => '\n',
+                Some('r') => '\r',
+                Some('t') => '\t',
+                Some('u') => {
+                    let digits: String = chars.by_ref().take(4).collect();
+                    u32::from_str_radix(&digits, 16)
+                        .ok()
+                        .and_then(char::from_u32)
+                        .unwrap_or(char::REPLACEMENT_CHARACTER)
+                }
+                Some(c) => c,
+                None => '\\',
+            },
+            c => c,
+        });
+    }
+    unescaped
+}
+
 fn hex_encode(value: &[u8]) -> String {
     if !value.is_empty() {
         let mut buffer = String::with_capacity(value.len() * 2);
diff --git a/rdftk_io/src/json/writer.rs b/rdftk_io/src/json/writer.rs
index c1dad7b..10a29e0 100644
--- a/rdftk_io/src/json/writer.rs
+++ b/rdftk_io/src/json/writer.rs
@@ -99,7 +99,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         );
                         let _ = object_map.insert(
                             OBJ_KEY_VALUE.to_string(),
-                            Value::String(literal.lexical_form().to_string()),
+                            Value::String(literal.unescaped_form()),
                         );
                         if let Some(language) = literal.language() {
                             let _ = object_map.insert(
diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 88f4820..9560c2e 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -302,7 +302,7 @@ impl XmlWriter {
                         writer.write(element).map_err(xml_error)?;
                     }
                     writer
-                        .write(XmlEvent::Characters(literal.lexical_form()))
+                        .write(XmlEvent::Characters(&literal.unescaped_form()))
                         .map_err(xml_error)?;
                 } else {
                     return rdf_star_not_supported_error(super::NAME).into();
-- 
2.43.0


From fe339cc45c93fbf2109e7fc12c8bb9631ad7e59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 25/66] fix: rdftk_io: the RDF/XML reader dropped every
 property after an rdf:resource, and lost blank objects, nested nodes, data
 types and blank strings

---
 rdftk_io/src/xml/reader.rs | 237 +++++++++++++++++++++++--------------
 1 file changed, 150 insertions(+), 87 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 92f9a02..5eb10b3 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -1,6 +1,6 @@
 use crate::xml::syntax::{
-    ATTRIBUTE_ABOUT, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE, ATTRIBUTE_RESOURCE,
-    ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_RDF,
+    ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE,
+    ATTRIBUTE_RESOURCE, ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_RDF,
     PARSE_TYPE_COLLECTION, PARSE_TYPE_LITERAL, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
 };
 use objio::ObjectReader;
@@ -45,6 +45,12 @@ enum SubjectType {
     RelativeResource(String),
 }
 
+#[derive(Clone, Debug)]
+enum ObjectContent {
+    Text(String),
+    Node(SubjectNode),
+}
+
 #[derive(Clone, Debug)]
 enum ParseType {
     XmlLiteral,
@@ -149,12 +155,7 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
                 trace_event!("parse_document" => event);
                 let attributes = parse_attributes(attributes)?;
                 if rdf_element.matches(name) {
-                    let _ = parse_subject_element(
-                        event_reader,
-                        &attributes.uri_base,
-                        None,
-                        &mut graph,
-                    )?;
+                    parse_node_elements(event_reader, &attributes.uri_base, &mut graph)?;
                 } else {
                     error_event!(state => "parse_document", "expecting rdf:RDF");
                 }
@@ -169,14 +170,15 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
     }
 }
 
-fn parse_subject_element<R: Read>(
+///
+/// Parse a sequence of node elements up to, and including, the end of the element they are in.
+///
+fn parse_node_elements<R: Read>(
     event_reader: &mut EventReader<&mut R>,
     xml_base: &Option<Iri>,
-    _subject: Option<&SubjectNode>,
     graph: &mut Graph,
-) -> Result<Option<SubjectNode>, Error> {
-    let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
-    let mut subject: Option<SubjectNode> = None;
+) -> Result<Vec<SubjectNode>, Error> {
+    let mut subjects: Vec<SubjectNode> = Default::default();
     loop {
         let event = event_reader.next();
         match &event {
@@ -185,62 +187,81 @@ fn parse_subject_element<R: Read>(
                 namespace: _,
                 attributes,
             }) => {
-                trace_event!("parse_subject_element" => event);
+                trace_event!("parse_node_elements" => event);
                 let attributes = parse_attributes(attributes)?;
-                let subject_node: SubjectNode = match &attributes.subject_type {
-                    None => {
-                        // SPEC: §2.1 Introduction
-                        BlankNode::generate().into()
-                    }
-                    Some(SubjectType::Resource(subject)) => {
-                        // SPEC: §2.2 Node Elements and Property Elements
-                        subject.clone().into()
-                    }
-                    Some(SubjectType::RelativeResource(subject)) => {
-                        // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
-                        let uri = format!("{:#}{}", xml_base.as_ref().unwrap(), subject);
-                        value_to_iri(&uri)?.into()
-                    }
-                    Some(SubjectType::BlankNamed(subject)) => {
-                        // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
-                        BlankNode::from_str(subject)?.into()
-                    }
-                };
-                if !description_element.matches(name) {
-                    // SPEC: §2.13 Typed Node Elements
-                    graph.insert(Statement::new(
-                        subject_node.clone(),
-                        rdf::a_type().clone(),
-                        name_to_iri(name)?,
-                    ));
-                }
-                parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
-                parse_predicate_element(
+                subjects.push(parse_subject_element(
                     event_reader,
-                    if attributes.uri_base.is_some() {
-                        &attributes.uri_base
-                    } else {
-                        xml_base
-                    },
-                    &subject_node,
+                    name,
+                    &attributes,
+                    xml_base,
                     graph,
-                )?;
-                // set outer loop value
-                subject = Some(subject_node);
+                )?);
             }
             Ok(XmlEvent::EndElement { .. }) => {
-                trace_event!("parse_subject_element" => event);
+                trace_event!("parse_node_elements" => event);
                 break;
             }
             Ok(_) => {
-                trace_event!("parse_subject_element" => ignore event);
+                trace_event!("parse_node_elements" => ignore event);
             }
             Err(e) => {
-                error_event!(parse => "parse_subject_element", e);
+                error_event!(parse => "parse_node_elements", e);
             }
         }
     }
-    Ok(subject)
+    Ok(subjects)
+}
+
+///
+/// Parse one node element, the start of which has been read already, up to, and including, its end.
+///
+fn parse_subject_element<R: Read>(
+    event_reader: &mut EventReader<&mut R>,
+    name: &OwnedName,
+    attributes: &Attributes<'_>,
+    xml_base: &Option<Iri>,
+    graph: &mut Graph,
+) -> Result<SubjectNode, Error> {
+    let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
+    let subject_node: SubjectNode = match &attributes.subject_type {
+        None => {
+            // SPEC: §2.1 Introduction
+            BlankNode::generate().into()
+        }
+        Some(SubjectType::Resource(subject)) => {
+            // SPEC: §2.2 Node Elements and Property Elements
+            subject.clone().into()
+        }
+        Some(SubjectType::RelativeResource(subject)) => {
+            // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
+            let uri = format!("{:#}{}", xml_base.as_ref().unwrap(), subject);
+            value_to_iri(&uri)?.into()
+        }
+        Some(SubjectType::BlankNamed(subject)) => {
+            // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
+            BlankNode::from_str(subject)?.into()
+        }
+    };
+    if !description_element.matches(name) {
+        // SPEC: §2.13 Typed Node Elements
+        graph.insert(Statement::new(
+            subject_node.clone(),
+            rdf::a_type().clone(),
+            name_to_iri(name)?,
+        ));
+    }
+    parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
+    parse_predicate_element(
+        event_reader,
+        if attributes.uri_base.is_some() {
+            &attributes.uri_base
+        } else {
+            xml_base
+        },
+        &subject_node,
+        graph,
+    )?;
+    Ok(subject_node)
 }
 
 #[inline]
@@ -284,7 +305,6 @@ fn parse_predicate_element<R: Read>(
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
-    let mut no_child_elements = false;
     loop {
         let event = event_reader.next();
         match &event {
@@ -294,9 +314,6 @@ fn parse_predicate_element<R: Read>(
                 attributes,
             }) => {
                 trace_event!("parse_predicate_element" => event);
-                if no_child_elements {
-                    error_event!(state => "parse_predicate_element", "child elements not allowed here");
-                }
                 let attributes = parse_attributes(attributes)?;
                 if let Some(resource) = attributes.resource {
                     // SPEC: §2.4 Empty Property Elements
@@ -305,14 +322,27 @@ fn parse_predicate_element<R: Read>(
                         name_to_iri(name)?,
                         resource,
                     ));
-                    // set outer loop value
-                    no_child_elements = true;
+                    parse_empty_element(event_reader)?;
+                } else if let Some(SubjectType::BlankNamed(object)) = attributes.subject_type {
+                    // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
+                    graph.insert(Statement::new(
+                        subject.clone(),
+                        name_to_iri(name)?,
+                        BlankNode::from_str(&object)?,
+                    ));
+                    parse_empty_element(event_reader)?;
                 } else {
                     match attributes.parse_type {
-                        None => {
-                            if let Some(content) =
-                                parse_object_element(event_reader, xml_base, graph)?
-                            {
+                        None => match parse_object_element(event_reader, xml_base, graph)? {
+                            ObjectContent::Node(object) => {
+                                // SPEC: §2.2 Node Elements and Property Elements
+                                graph.insert(Statement::new(
+                                    subject.clone(),
+                                    name_to_iri(name)?,
+                                    object.to_object(),
+                                ));
+                            }
+                            ObjectContent::Text(content) => {
                                 let literal = if let Some(data_type) = attributes.data_type {
                                     // SPEC: §2.9 Typed Literals: rdf:datatype
                                     Literal::with_data_type(&content, DataType::from(data_type))
@@ -328,7 +358,7 @@ fn parse_predicate_element<R: Read>(
                                     literal,
                                 ));
                             }
-                        }
+                        },
                         Some(ParseType::XmlLiteral) => {
                             // SPEC: §2.8 XML Literals: rdf:parseType="Literal"
                             let content = parse_xml_literal_element(event_reader)?
@@ -342,16 +372,20 @@ fn parse_predicate_element<R: Read>(
                         }
                         Some(ParseType::Resource) => {
                             // SPEC: §2.11 Omitting Blank Nodes: rdf:parseType="Resource"
-                            let subject_node = BlankNode::generate().into();
-                            //parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
-                            let _subject = parse_subject_element(
+                            let subject_node = BlankNode::generate();
+                            graph.insert(Statement::new(
+                                subject.clone(),
+                                name_to_iri(name)?,
+                                subject_node.clone(),
+                            ));
+                            parse_predicate_element(
                                 event_reader,
                                 if attributes.uri_base.is_some() {
                                     &attributes.uri_base
                                 } else {
                                     xml_base
                                 },
-                                Some(&subject_node),
+                                &subject_node.into(),
                                 graph,
                             )?;
                         }
@@ -380,9 +414,9 @@ fn parse_object_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
     xml_base: &Option<Iri>,
     graph: &mut Graph,
-) -> Result<Option<String>, Error> {
+) -> Result<ObjectContent, Error> {
     let mut content = String::new();
-    let mut has_elements = false;
+    let mut node: Option<SubjectNode> = None;
     let mut has_characters = false;
     loop {
         let event = event_reader.next();
@@ -396,28 +430,29 @@ fn parse_object_element<R: Read>(
                 if has_characters {
                     error_event!(state => "parse_object_element", &format!("found XML content, parseType != Literal ({:?})", name));
                 }
-                // set outer loop value
-                has_elements = true;
+                if node.is_some() {
+                    error_event!(state => "parse_object_element", "found more than one node element");
+                }
                 let attributes = parse_attributes(attributes)?;
-                let subject_node = BlankNode::generate().into();
-                let _subject = parse_subject_element(
+                // set outer loop value
+                node = Some(parse_subject_element(
                     event_reader,
-                    if attributes.uri_base.is_some() {
-                        &attributes.uri_base
-                    } else {
-                        xml_base
-                    },
-                    Some(&subject_node),
+                    name,
+                    &attributes,
+                    xml_base,
                     graph,
-                )?;
+                )?);
             }
             Ok(XmlEvent::EndElement { .. }) => {
                 trace_event!("parse_content_element" => event);
-                return Ok(Some(content));
+                return Ok(match node {
+                    Some(node) => ObjectContent::Node(node),
+                    None => ObjectContent::Text(content),
+                });
             }
             Ok(XmlEvent::CData(value)) => {
                 trace_event!("parse_content_element" => event);
-                if has_elements {
+                if node.is_some() {
                     error_event!(state => "parse_object_element", format!("found character content after element(s)"));
                 }
                 // set outer loop value
@@ -426,13 +461,18 @@ fn parse_object_element<R: Read>(
             }
             Ok(XmlEvent::Characters(value)) => {
                 trace_event!("parse_content_element" => event);
-                if has_elements {
+                if node.is_some() {
                     error_event!(state => "parse_object_element", "found character content after element(s)");
                 }
                 // set outer loop value
                 has_characters = true;
                 content.push_str(value);
             }
+            Ok(XmlEvent::Whitespace(value)) => {
+                // This is the literal if there are no elements, or their indentation if there are.
+                trace_event!("parse_content_element" => event);
+                content.push_str(value);
+            }
             Ok(_) => {
                 trace_event!("parse_object_element" => ignore event);
             }
@@ -443,6 +483,27 @@ fn parse_object_element<R: Read>(
     }
 }
 
+fn parse_empty_element<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<(), Error> {
+    loop {
+        let event = event_reader.next();
+        match &event {
+            Ok(XmlEvent::StartElement { .. } | XmlEvent::Characters(_) | XmlEvent::CData(_)) => {
+                error_event!(state => "parse_empty_element", "content not allowed here");
+            }
+            Ok(XmlEvent::EndElement { .. }) => {
+                trace_event!("parse_empty_element" => event);
+                return Ok(());
+            }
+            Ok(_) => {
+                trace_event!("parse_empty_element" => ignore event);
+            }
+            Err(e) => {
+                error_event!(parse => "parse_empty_element", e);
+            }
+        }
+    }
+}
+
 fn parse_xml_literal_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
 ) -> Result<String, Error> {
@@ -512,6 +573,8 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
             } else if attribute.name.local_name == ATTRIBUTE_ID {
                 response.subject_type =
                     Some(SubjectType::RelativeResource(attribute.value.to_string()));
+            } else if attribute.name.local_name == ATTRIBUTE_DATATYPE {
+                response.data_type = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_RESOURCE {
                 response.resource = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_PARSE_TYPE {
-- 
2.43.0


From cf88e6cafee853c3d943129998c56b187545a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 26/66] fix: rdftk_io: the RDF/XML reader panicked on
 rdf:parseType (Collection or unknown), on names without namespace, rdf:ID
 without base, and on XML literals

---
 rdftk_io/src/xml/reader.rs | 72 ++++++++++++++++++++++++++------------
 1 file changed, 49 insertions(+), 23 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 5eb10b3..90fb218 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -234,8 +234,10 @@ fn parse_subject_element<R: Read>(
         }
         Some(SubjectType::RelativeResource(subject)) => {
             // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
-            let uri = format!("{:#}{}", xml_base.as_ref().unwrap(), subject);
-            value_to_iri(&uri)?.into()
+            let Some(xml_base) = xml_base else {
+                error_event!(state => "parse_subject_element", "rdf:ID without xml:base");
+            };
+            value_to_iri(&format!("{xml_base:#}{subject}"))?.into()
         }
         Some(SubjectType::BlankNamed(subject)) => {
             // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
@@ -266,11 +268,10 @@ fn parse_subject_element<R: Read>(
 
 #[inline]
 fn name_to_iri(name: &OwnedName) -> Result<Iri, Error> {
-    Ok(Iri::from_str(&format!(
-        "{}{}",
-        name.namespace.as_ref().unwrap(),
-        name.local_name
-    ))?)
+    let Some(namespace) = &name.namespace else {
+        error_event!(state => "name_to_iri", "the name of a property or type has no namespace");
+    };
+    Ok(Iri::from_str(&format!("{namespace}{}", name.local_name))?)
 }
 
 #[inline]
@@ -391,7 +392,27 @@ fn parse_predicate_element<R: Read>(
                         }
                         Some(ParseType::Collection) => {
                             // SPEC: §2.16 Collections: rdf:parseType="Collection"
-                            todo!()
+                            let members = parse_node_elements(event_reader, xml_base, graph)?;
+                            let mut list: SubjectNode = rdf::nil().clone().into();
+                            for member in members.iter().rev() {
+                                let node: SubjectNode = BlankNode::generate().into();
+                                graph.insert(Statement::new(
+                                    node.clone(),
+                                    rdf::first().clone(),
+                                    member.to_object(),
+                                ));
+                                graph.insert(Statement::new(
+                                    node.clone(),
+                                    rdf::rest().clone(),
+                                    list.to_object(),
+                                ));
+                                list = node;
+                            }
+                            graph.insert(Statement::new(
+                                subject.clone(),
+                                name_to_iri(name)?,
+                                list.to_object(),
+                            ));
                         }
                     }
                 }
@@ -518,31 +539,35 @@ fn parse_xml_literal_element<R: Read>(
         match &event {
             Ok(XmlEvent::StartElement { .. }) => {
                 trace_event!("parse_content_element" => event);
-                if let Some(event) = event.unwrap().as_writer_event() {
-                    writer.write(event).unwrap()
-                }
                 opened += 1;
             }
             Ok(XmlEvent::EndElement { .. }) => {
                 trace_event!("parse_content_element" => event);
-                if let Some(event) = event.unwrap().as_writer_event() {
-                    writer.write(event).unwrap()
-                }
-                opened -= 1;
                 if opened == 0 {
-                    return Ok(String::from_utf8(content).unwrap());
-                }
-            }
-            Ok(event) => {
-                // We only leave trim_whitespace=false so that these events are also written out.
-                if let Some(event) = event.as_writer_event() {
-                    writer.write(event).unwrap()
+                    // the end of the property element, not of an element in its content.
+                    return String::from_utf8(content).map_err(|e| Error::Tokenizer {
+                        representation: super::NAME.into(),
+                        source: Box::new(e),
+                    });
                 }
+                opened -= 1;
             }
+            Ok(_) => {}
             Err(e) => {
                 error_event!(parse => "parse_content_element", e);
             }
         }
+        // We only leave trim_whitespace=false so that these events are also written out.
+        if let Some(event) = event
+            .as_ref()
+            .ok()
+            .and_then(|event| event.as_writer_event())
+        {
+            writer.write(event).map_err(|e| Error::Tokenizer {
+                representation: super::NAME.into(),
+                source: Box::new(e),
+            })?;
+        }
     }
 }
 
@@ -585,7 +610,8 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
                 } else if attribute.value == PARSE_TYPE_COLLECTION {
                     response.parse_type = Some(ParseType::Collection);
                 } else {
-                    panic!();
+                    // SPEC: §7.2.20 Production parseTypeOtherPropertyElt
+                    response.parse_type = Some(ParseType::XmlLiteral);
                 }
             }
         } else {
-- 
2.43.0


From 2ec2a547ba998deb0d820fc6c21a51797d52505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 27/66] fix: rdftk_io: the RDF/XML writer panicked on
 properties without '/' or '#', wrote names XML does not allow, and repeated
 the prefix for every further object

---
 rdftk_io/src/xml/writer.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 9560c2e..a9dde2f 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -6,14 +6,14 @@ use crate::xml::syntax::ATTRIBUTE_XML_LANG_PREFIXED;
 use crate::GraphWriter;
 use objio::HasOptions;
 use objio::{impl_has_options, ObjectWriter};
-use rdftk_core::error::{rdf_star_not_supported_error, Error};
+use rdftk_core::error::{invalid_state_error, rdf_star_not_supported_error, Error};
 use rdftk_core::model::graph::Graph;
 use rdftk_core::model::statement::SubjectNode;
 use rdftk_iri::Iri;
 use rdftk_names::{dc, foaf, geo, owl, rdf, rdfs, xsd};
 use std::collections::HashMap;
 use std::io::Write;
-use xml::common::XmlVersion;
+use xml::common::{is_name_char, is_name_start_char, XmlVersion};
 use xml::writer::{EventWriter, XmlEvent};
 use xml::EmitterConfig;
 
@@ -263,11 +263,15 @@ impl XmlWriter {
         }
 
         for predicate in graph.predicates_for(subject) {
-            let (ns, mut name) = split_uri(predicate);
+            let (ns, name) = split_uri(predicate)?;
+            let prefix = self.mappings.get(&ns);
+            let name = match prefix {
+                Some(prefix) => format!("{prefix}:{name}"),
+                None => name,
+            };
 
             for object in graph.objects_for(subject, predicate) {
-                let mut element = if let Some(prefix) = self.mappings.get(&ns) {
-                    name = format!("{}:{}", prefix, name);
+                let mut element = if let Some(prefix) = prefix {
                     XmlEvent::start_element(name.as_str()).ns(prefix, &ns)
                 } else {
                     XmlEvent::start_element(name.as_str()).default_ns(&ns)
@@ -333,15 +337,19 @@ fn xml_error(e: xml::writer::Error) -> Error {
     }
 }
 
-fn split_uri(iri: &Iri) -> (String, String) {
+///
+/// Split the IRI of a property into a namespace and a local name, the longest one which XML allows
+/// as the name of an element.
+///
+fn split_uri(iri: &Iri) -> Result<(String, String), Error> {
     let iri = format!("{iri:#}");
-    let index = iri
-        .chars()
+    let name_start = iri
+        .char_indices()
         .rev()
-        .enumerate()
-        .find_map(|(i, c)| if c == '#' || c == '/' { Some(i) } else { None })
-        .unwrap();
-    assert_ne!(index, iri.len());
-    let index = iri.len() - index;
-    (iri[..index].to_string(), iri[index..].to_string())
+        .take_while(|(_, c)| *c != ':' && is_name_char(*c))
+        .filter(|(_, c)| is_name_start_char(*c))
+        .map(|(i, _)| i)
+        .last()
+        .ok_or_else(invalid_state_error)?;
+    Ok((iri[..name_start].to_string(), iri[name_start..].to_string()))
 }
-- 
2.43.0


From ca16f414d59ddeddd3db244fc61ee98d63391d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 28/66] fix: rdftk_io: the striped RDF/XML writer lost blank
 nodes no IRI leads to, split those referenced twice, and never ended on a
 cycle

---
 rdftk_io/src/xml/writer.rs | 68 ++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 17 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index a9dde2f..657bc60 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -8,10 +8,10 @@ use objio::HasOptions;
 use objio::{impl_has_options, ObjectWriter};
 use rdftk_core::error::{invalid_state_error, rdf_star_not_supported_error, Error};
 use rdftk_core::model::graph::Graph;
-use rdftk_core::model::statement::SubjectNode;
+use rdftk_core::model::statement::{BlankNode, Statement, SubjectNode};
 use rdftk_iri::Iri;
 use rdftk_names::{dc, foaf, geo, owl, rdf, rdfs, xsd};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::Write;
 use xml::common::{is_name_char, is_name_start_char, XmlVersion};
 use xml::writer::{EventWriter, XmlEvent};
@@ -173,13 +173,14 @@ impl ObjectWriter<Graph> for XmlWriter {
 
         let graph = graph.simplify()?;
 
-        if self.options.style == XmlStyle::Flat {
-            for subject in graph.subjects() {
-                self.write_subject(&mut writer, &graph, subject, true)?;
-            }
+        let nested = if self.options.style == XmlStyle::Flat {
+            Default::default()
         } else {
-            for subject in graph.subjects().iter().filter(|s| s.is_resource()) {
-                self.write_subject(&mut writer, &graph, subject, false)?;
+            nested_blank_nodes(&graph)
+        };
+        for subject in graph.subjects() {
+            if !subject.as_blank().is_some_and(|b| nested.contains(b)) {
+                self.write_subject(&mut writer, &graph, subject, &nested)?;
             }
         }
 
@@ -236,20 +237,20 @@ impl XmlWriter {
         writer: &mut EventWriter<W>,
         graph: &Graph,
         subject: &SubjectNode,
-        flat: bool,
+        nested: &HashSet<&BlankNode>,
     ) -> Result<(), Error> {
         if let Some(blank) = subject.as_blank() {
-            if flat {
+            if nested.contains(blank) {
+                writer
+                    .write(XmlEvent::start_element(RDF_DESCRIPTION.as_str()))
+                    .map_err(xml_error)?;
+            } else {
                 writer
                     .write(
                         XmlEvent::start_element(RDF_DESCRIPTION.as_str())
                             .attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref()),
                     )
                     .map_err(xml_error)?;
-            } else {
-                writer
-                    .write(XmlEvent::start_element(RDF_DESCRIPTION.as_str()))
-                    .map_err(xml_error)?;
             }
         } else if let Some(subject) = subject.as_resource() {
             writer
@@ -282,12 +283,12 @@ impl XmlWriter {
                     element = element.attr(RDF_RESOURCE.as_str(), &iri);
                     writer.write(element).map_err(xml_error)?;
                 } else if let Some(blank) = object.as_blank() {
-                    if flat {
-                        element = element.attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref());
+                    if nested.contains(blank) {
                         writer.write(element).map_err(xml_error)?;
+                        self.write_subject(writer, graph, &blank.clone().into(), nested)?;
                     } else {
+                        element = element.attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref());
                         writer.write(element).map_err(xml_error)?;
-                        self.write_subject(writer, graph, &blank.clone().into(), flat)?;
                     }
                 } else if let Some(literal) = object.as_literal() {
                     let language = literal
@@ -337,6 +338,39 @@ fn xml_error(e: xml::writer::Error) -> Error {
     }
 }
 
+///
+/// The blank nodes to write within the one property they are the object of, all others need a name.
+///
+fn nested_blank_nodes(graph: &Graph) -> HashSet<&BlankNode> {
+    let statements: HashSet<&Statement> = graph.statements().collect();
+    let mut owners: HashMap<&BlankNode, Vec<&SubjectNode>> = Default::default();
+    for statement in statements {
+        if let Some(blank) = statement.object().as_blank() {
+            owners.entry(blank).or_default().push(statement.subject());
+        }
+    }
+    let owner = |blank: &BlankNode| match owners.get(blank).map(Vec::as_slice) {
+        Some([owner]) => Some(*owner),
+        _ => None,
+    };
+    owners
+        .keys()
+        .copied()
+        .filter(|blank| {
+            // follow the owners upward, a blank node must not end up within itself.
+            let mut current = *blank;
+            for _ in 0..owners.len() {
+                match owner(current).and_then(SubjectNode::as_blank) {
+                    Some(owner) if owner == *blank => return false,
+                    Some(owner) => current = owner,
+                    None => break,
+                }
+            }
+            owner(blank).is_some()
+        })
+        .collect()
+}
+
 ///
 /// Split the IRI of a property into a namespace and a local name, the longest one which XML allows
 /// as the name of an element.
-- 
2.43.0


From 48383f221fcc6694e79b2c5482b7d5ad3b8d4ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 29/66] fix: rdftk_io: RDF/XML was written with characters that
 XML does not allow unescaped, does not have, or normalizes away

---
 rdftk_io/src/xml/writer.rs | 42 ++++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 657bc60..86632a5 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -13,7 +13,9 @@ use rdftk_iri::Iri;
 use rdftk_names::{dc, foaf, geo, owl, rdf, rdfs, xsd};
 use std::collections::{HashMap, HashSet};
 use std::io::Write;
-use xml::common::{is_name_char, is_name_start_char, XmlVersion};
+use xml::common::{
+    is_name_char, is_name_start_char, is_xml11_char, is_xml11_char_not_restricted, XmlVersion,
+};
 use xml::writer::{EventWriter, XmlEvent};
 use xml::EmitterConfig;
 
@@ -150,9 +152,11 @@ impl ObjectWriter<Graph> for XmlWriter {
     where
         W: Write,
     {
-        let config = EmitterConfig::new()
+        let mut config = EmitterConfig::new()
             .perform_indent(self.options.pretty_print)
             .normalize_empty_elements(self.options.pretty_print);
+        // XML 1.1 needs more than the emitter escapes, see `escape`.
+        config.perform_escaping = false;
         let mut writer = config.create_writer(w);
 
         writer
@@ -248,7 +252,7 @@ impl XmlWriter {
                 writer
                     .write(
                         XmlEvent::start_element(RDF_DESCRIPTION.as_str())
-                            .attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref()),
+                            .attr(RDF_NODE_ID.as_str(), &escape(blank.as_ref())?),
                     )
                     .map_err(xml_error)?;
             }
@@ -256,7 +260,7 @@ impl XmlWriter {
             writer
                 .write(
                     XmlEvent::start_element(RDF_DESCRIPTION.as_str())
-                        .attr(RDF_ABOUT.as_str(), subject.as_ref()),
+                        .attr(RDF_ABOUT.as_str(), &escape(subject.as_ref())?),
                 )
                 .map_err(xml_error)?;
         } else {
@@ -279,7 +283,7 @@ impl XmlWriter {
                 };
 
                 if let Some(iri) = object.as_resource() {
-                    let iri = format!("{iri:#}");
+                    let iri = escape(&format!("{iri:#}"))?;
                     element = element.attr(RDF_RESOURCE.as_str(), &iri);
                     writer.write(element).map_err(xml_error)?;
                 } else if let Some(blank) = object.as_blank() {
@@ -287,7 +291,8 @@ impl XmlWriter {
                         writer.write(element).map_err(xml_error)?;
                         self.write_subject(writer, graph, &blank.clone().into(), nested)?;
                     } else {
-                        element = element.attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref());
+                        let blank = escape(blank.as_ref())?;
+                        element = element.attr(RDF_NODE_ID.as_str(), &blank);
                         writer.write(element).map_err(xml_error)?;
                     }
                 } else if let Some(literal) = object.as_literal() {
@@ -299,7 +304,7 @@ impl XmlWriter {
                         element = element.attr(ATTRIBUTE_XML_LANG_PREFIXED, &language)
                     }
                     if let Some(data_type) = literal.data_type() {
-                        let dt_iri = format!("{:#}", data_type.as_iri());
+                        let dt_iri = escape(&format!("{:#}", data_type.as_iri()))?;
                         writer
                             .write(element.attr(RDF_DATATYPE.as_str(), &dt_iri))
                             .map_err(xml_error)?
@@ -307,7 +312,7 @@ impl XmlWriter {
                         writer.write(element).map_err(xml_error)?;
                     }
                     writer
-                        .write(XmlEvent::Characters(&literal.unescaped_form()))
+                        .write(XmlEvent::Characters(&escape(&literal.unescaped_form())?))
                         .map_err(xml_error)?;
                 } else {
                     return rdf_star_not_supported_error(super::NAME).into();
@@ -338,6 +343,27 @@ fn xml_error(e: xml::writer::Error) -> Error {
     }
 }
 
+///
+/// Escape the markup, and those characters that XML 1.1 either restricts to references or changes
+/// when it normalizes line ends. An error is returned for those that XML does not have at all.
+///
+fn escape(value: &str) -> Result<String, Error> {
+    let mut escaped = String::with_capacity(value.len());
+    for c in value.chars() {
+        match c {
+            '&' => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '>' => escaped.push_str("&gt;"),
+            '"' => escaped.push_str("&quot;"),
+            '\r' | '\u{85}' | '\u{2028}' => escaped.push_str(&format!("&#x{:X};", c as u32)),
+            c if is_xml11_char_not_restricted(c) => escaped.push(c),
+            c if is_xml11_char(c) => escaped.push_str(&format!("&#x{:X};", c as u32)),
+            _ => return Err(invalid_state_error()),
+        }
+    }
+    Ok(escaped)
+}
+
 ///
 /// The blank nodes to write within the one property they are the object of, all others need a name.
 ///
-- 
2.43.0


From 7bcbc7a9ac6375841d378e14d4aab0436649beb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 30/66] fix: rdftk_io: the Dot writer kept the nodes of earlier
 graphs, and ignored the node prefix for objects

---
 rdftk_io/src/dot/writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index 2b31354..0bc5394 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -287,13 +287,17 @@ impl ObjectWriter<Graph> for DotWriter {
 
         writeln!(w)?;
 
+        // Each document is complete, it has the nodes of this graph and no other.
+        self.nodes.borrow_mut().clear();
+
         let mappings = graph.prefix_mappings();
         for statement in graph.statements() {
             writeln!(
                 w,
-                "    \"{}{}\" -> \"node_{}\" [label=\"{}\"];",
+                "    \"{}{}\" -> \"{}{}\" [label=\"{}\"];",
                 self.options.node_prefix,
                 self.subject_id(statement.subject()),
+                self.options.node_prefix,
                 self.object_id(statement.object()),
                 match mappings.compress(statement.predicate()) {
                     None => format!("{:#}", statement.predicate()),
-- 
2.43.0


From be52c961daedc5d42ae83c94e37a377e78a5f0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 31/66] fix: rdftk_io: the Dot writer gave nested statements
 and collections the identity of another node

---
 rdftk_io/src/dot/writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index 0bc5394..77dd893 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -281,6 +281,9 @@ impl ObjectWriter<Graph> for DotWriter {
     where
         W: Write,
     {
+        // Nested statements and collections have no node of their own.
+        let graph = graph.simplify()?;
+
         writeln!(w, "digraph {{\n    rankdir=BT\n    charset=\"utf-8\";")?;
 
         // TODO: emit graph name
-- 
2.43.0


From bbd96c4d0e95e3ae159fe3ca836cd01ab8fb9644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 32/66] fix: rdftk_core: BlankNode::from_str kept the '_:' it
 accepts as part of the name

---
 rdftk_core/src/model/statement/bnode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/statement/bnode.rs b/rdftk_core/src/model/statement/bnode.rs
index ebe3374..4d360f8 100644
--- a/rdftk_core/src/model/statement/bnode.rs
+++ b/rdftk_core/src/model/statement/bnode.rs
@@ -43,7 +43,7 @@ impl FromStr for BlankNode {
 
     fn from_str(s: &str) -> std::result::Result<Self, Self::Err> {
         if BlankNode::is_valid_str(s) {
-            Ok(Self(s.into()))
+            Ok(Self(s.strip_prefix(BLANK_NODE_PREFIX).unwrap_or(s).into()))
         } else {
             Err(crate::error::Error::InvalidBlankNodeName { name: s.into() })
         }
-- 
2.43.0


From 4311e5b3ae1592c87b052fd728410a87c9706545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 33/66] fix: rdftk_core: generated blank nodes started over
 with every process, and merged with those of graphs saved by an earlier one

---
 rdftk_core/src/model/statement/bnode.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rdftk_core/src/model/statement/bnode.rs b/rdftk_core/src/model/statement/bnode.rs
index 4d360f8..386a92a 100644
--- a/rdftk_core/src/model/statement/bnode.rs
+++ b/rdftk_core/src/model/statement/bnode.rs
@@ -1,7 +1,7 @@
 use rdftk_iri::{LocalName, Name};
 use std::fmt::{Display, Formatter};
 use std::str::FromStr;
-use unique_id::sequence::SequenceGenerator as IDGenerator;
+use unique_id::random::RandomGenerator as IDGenerator;
 use unique_id::Generator;
 
 // ------------------------------------------------------------------------------------------------
@@ -82,10 +82,11 @@ impl AsRef<str> for BlankNode {
 
 impl BlankNode {
     ///
-    /// Construct a new blank node with a generated identifier.
+    /// Construct a new blank node with a generated identifier. The identifier is random, a counter
+    /// would start over with the process and repeat identifiers of graphs read from files.
     ///
     pub fn generate() -> Self {
-        Self(format!("B{}", IDGenerator.next_id()))
+        Self(format!("B{:032x}", IDGenerator.next_id()))
     }
 
     ///
-- 
2.43.0


From 5e7717f159e3116b19c0c92ce955dd0dc52bd479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 34/66] fix: rdftk_io: the Dot writer drew typed literals of
 equal short form, and anyURI literals and IRIs, as one node

---
 rdftk_io/src/dot/writer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index 77dd893..b60d434 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -410,14 +410,16 @@ impl DotWriter {
     }
 
     fn object_id(&self, node: &ObjectNode) -> String {
+        // The full form, in the short one a typed literal may look like an IRI or another literal.
+        let key = format!("{node:#}");
         let mut nodes = self.nodes.borrow_mut();
-        if let Some(node) = nodes.get(&node.to_string()) {
+        if let Some(node) = nodes.get(&key) {
             node.id.clone()
         } else {
             let id = format!("{}", nodes.len() + 1);
             if node.is_blank() {
                 let _ = nodes.insert(
-                    node.to_string(),
+                    key,
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Blank,
@@ -426,7 +428,7 @@ impl DotWriter {
                 );
             } else if node.is_resource() {
                 let _ = nodes.insert(
-                    node.to_string(),
+                    key,
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Iri,
@@ -435,7 +437,7 @@ impl DotWriter {
                 );
             } else if node.is_literal() {
                 let _ = nodes.insert(
-                    node.to_string(),
+                    key,
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Literal,
-- 
2.43.0


From eb830da65e6c629407abed8f6df879d36868bdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 35/66] fix: rdftk_io: the N-Quads reader could not read
 statements of the default graph

---
 rdftk_io/src/common/parser/nquads.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/common/parser/nquads.rs b/rdftk_io/src/common/parser/nquads.rs
index fb0c4ce..412c203 100644
--- a/rdftk_io/src/common/parser/nquads.rs
+++ b/rdftk_io/src/common/parser/nquads.rs
@@ -56,7 +56,10 @@ fn nquad(input_pair: Pair<'_, Rule>, data_set: &mut DataSet) -> Result<(), Error
         let predicate: Iri = nt_predicate(inner_pairs.next().unwrap())?;
         let object: ObjectNode = nt_object(inner_pairs.next().unwrap())?;
         let statement: Statement = Statement::new(subject, predicate, object);
-        let graph: &mut Graph = if let Some(new_inner_pair) = inner_pairs.next() {
+        let graph: &mut Graph = if let Some(new_inner_pair) = inner_pairs
+            .next()
+            .filter(|pair| pair.as_rule() == Rule::ntripleSubject)
+        {
             let graph_name = subject_to_graph_name(nt_subject(new_inner_pair)?);
             if let Some(graph) = data_set.graph_mut(&Some(graph_name.clone())) {
                 graph
-- 
2.43.0


From b676f8e4fa5786903c4536e5bc5c49fc5394ad58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 36/66] fix: rdftk_io: striped RDF/XML left out a default
 namespace that an outer property had, but not the one around it

---
 rdftk_io/src/xml/writer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 86632a5..85ae559 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -274,12 +274,15 @@ impl XmlWriter {
                 Some(prefix) => format!("{prefix}:{name}"),
                 None => name,
             };
+            let escaped_ns = escape(&ns)?;
 
             for object in graph.objects_for(subject, predicate) {
                 let mut element = if let Some(prefix) = prefix {
                     XmlEvent::start_element(name.as_str()).ns(prefix, &ns)
                 } else {
-                    XmlEvent::start_element(name.as_str()).default_ns(&ns)
+                    // the emitter takes a default namespace which is bound at any level, even if
+                    // it is not the innermost one, for one which is in effect.
+                    XmlEvent::start_element(name.as_str()).attr("xmlns", &escaped_ns)
                 };
 
                 if let Some(iri) = object.as_resource() {
-- 
2.43.0


From a74f038d7d7722d7418a7aa187b64cc68a8cc7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 37/66] fix: rdftk_io: the RDF/XML reader took no account of
 the language of the elements around a property, nor of an empty one

---
 rdftk_io/src/xml/reader.rs | 80 ++++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 30 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 90fb218..e2ddd16 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -64,11 +64,20 @@ struct Attributes<'a> {
     parse_type: Option<ParseType>,
     uri_base: Option<Iri>,
     data_type: Option<Iri>,
-    language: Option<LanguageTag>,
+    language: Option<Option<LanguageTag>>,
     resource: Option<Iri>,
     inner: Vec<&'a OwnedAttribute>,
 }
 
+///
+/// What an element inherits from those around it.
+///
+#[derive(Clone, Debug, Default)]
+struct Scope {
+    xml_base: Option<Iri>,
+    language: Option<LanguageTag>,
+}
+
 // ------------------------------------------------------------------------------------------------
 // Implementations
 // ------------------------------------------------------------------------------------------------
@@ -87,6 +96,17 @@ impl ObjectReader<Graph> for XmlReader {
 
 // ------------------------------------------------------------------------------------------------
 
+impl Scope {
+    fn within(&self, attributes: &Attributes<'_>) -> Self {
+        Self {
+            xml_base: attributes.uri_base.clone().or(self.xml_base.clone()),
+            language: attributes.language.clone().unwrap_or(self.language.clone()),
+        }
+    }
+}
+
+// ------------------------------------------------------------------------------------------------
+
 impl ExpectedName {
     pub(crate) fn new(local_name: &str, namespace: &str) -> Self {
         Self {
@@ -155,7 +175,8 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
                 trace_event!("parse_document" => event);
                 let attributes = parse_attributes(attributes)?;
                 if rdf_element.matches(name) {
-                    parse_node_elements(event_reader, &attributes.uri_base, &mut graph)?;
+                    let scope = Scope::default().within(&attributes);
+                    parse_node_elements(event_reader, &scope, &mut graph)?;
                 } else {
                     error_event!(state => "parse_document", "expecting rdf:RDF");
                 }
@@ -175,7 +196,7 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
 ///
 fn parse_node_elements<R: Read>(
     event_reader: &mut EventReader<&mut R>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     graph: &mut Graph,
 ) -> Result<Vec<SubjectNode>, Error> {
     let mut subjects: Vec<SubjectNode> = Default::default();
@@ -193,7 +214,7 @@ fn parse_node_elements<R: Read>(
                     event_reader,
                     name,
                     &attributes,
-                    xml_base,
+                    scope,
                     graph,
                 )?);
             }
@@ -219,10 +240,11 @@ fn parse_subject_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
     name: &OwnedName,
     attributes: &Attributes<'_>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     graph: &mut Graph,
 ) -> Result<SubjectNode, Error> {
     let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
+    let scope = scope.within(attributes);
     let subject_node: SubjectNode = match &attributes.subject_type {
         None => {
             // SPEC: §2.1 Introduction
@@ -234,7 +256,7 @@ fn parse_subject_element<R: Read>(
         }
         Some(SubjectType::RelativeResource(subject)) => {
             // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
-            let Some(xml_base) = xml_base else {
+            let Some(xml_base) = &scope.xml_base else {
                 error_event!(state => "parse_subject_element", "rdf:ID without xml:base");
             };
             value_to_iri(&format!("{xml_base:#}{subject}"))?.into()
@@ -252,17 +274,8 @@ fn parse_subject_element<R: Read>(
             name_to_iri(name)?,
         ));
     }
-    parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
-    parse_predicate_element(
-        event_reader,
-        if attributes.uri_base.is_some() {
-            &attributes.uri_base
-        } else {
-            xml_base
-        },
-        &subject_node,
-        graph,
-    )?;
+    parse_predicate_attributes(&attributes.inner, &scope, &subject_node, graph)?;
+    parse_predicate_element(event_reader, &scope, &subject_node, graph)?;
     Ok(subject_node)
 }
 
@@ -281,6 +294,7 @@ fn value_to_iri(name: &str) -> Result<Iri, Error> {
 
 fn parse_predicate_attributes(
     attributes: &[&OwnedAttribute],
+    scope: &Scope,
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
@@ -291,10 +305,14 @@ fn parse_predicate_attributes(
             "XmlReader::parse_predicate_attributes attribute: {:?}",
             attribute
         );
+        let literal = match &scope.language {
+            Some(language) => Literal::with_language(&attribute.value, language.clone()),
+            None => Literal::plain(&attribute.value),
+        };
         graph.insert(Statement::new(
             subject.clone(),
             name_to_iri(&attribute.name)?,
-            Literal::plain(&attribute.value),
+            literal,
         ));
     }
     Ok(())
@@ -302,7 +320,7 @@ fn parse_predicate_attributes(
 
 fn parse_predicate_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
@@ -316,6 +334,7 @@ fn parse_predicate_element<R: Read>(
             }) => {
                 trace_event!("parse_predicate_element" => event);
                 let attributes = parse_attributes(attributes)?;
+                let scope = scope.within(&attributes);
                 if let Some(resource) = attributes.resource {
                     // SPEC: §2.4 Empty Property Elements
                     graph.insert(Statement::new(
@@ -334,7 +353,7 @@ fn parse_predicate_element<R: Read>(
                     parse_empty_element(event_reader)?;
                 } else {
                     match attributes.parse_type {
-                        None => match parse_object_element(event_reader, xml_base, graph)? {
+                        None => match parse_object_element(event_reader, &scope, graph)? {
                             ObjectContent::Node(object) => {
                                 // SPEC: §2.2 Node Elements and Property Elements
                                 graph.insert(Statement::new(
@@ -347,7 +366,7 @@ fn parse_predicate_element<R: Read>(
                                 let literal = if let Some(data_type) = attributes.data_type {
                                     // SPEC: §2.9 Typed Literals: rdf:datatype
                                     Literal::with_data_type(&content, DataType::from(data_type))
-                                } else if let Some(language) = attributes.language {
+                                } else if let Some(language) = scope.language {
                                     // SPEC: §2.7 Languages: xml:lang
                                     Literal::with_language(&content, language)
                                 } else {
@@ -381,18 +400,14 @@ fn parse_predicate_element<R: Read>(
                             ));
                             parse_predicate_element(
                                 event_reader,
-                                if attributes.uri_base.is_some() {
-                                    &attributes.uri_base
-                                } else {
-                                    xml_base
-                                },
+                                &scope,
                                 &subject_node.into(),
                                 graph,
                             )?;
                         }
                         Some(ParseType::Collection) => {
                             // SPEC: §2.16 Collections: rdf:parseType="Collection"
-                            let members = parse_node_elements(event_reader, xml_base, graph)?;
+                            let members = parse_node_elements(event_reader, &scope, graph)?;
                             let mut list: SubjectNode = rdf::nil().clone().into();
                             for member in members.iter().rev() {
                                 let node: SubjectNode = BlankNode::generate().into();
@@ -433,7 +448,7 @@ fn parse_predicate_element<R: Read>(
 
 fn parse_object_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     graph: &mut Graph,
 ) -> Result<ObjectContent, Error> {
     let mut content = String::new();
@@ -460,7 +475,7 @@ fn parse_object_element<R: Read>(
                     event_reader,
                     name,
                     &attributes,
-                    xml_base,
+                    scope,
                     graph,
                 )?);
             }
@@ -587,7 +602,12 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
             if attribute.name.local_name == ATTRIBUTE_XML_BASE {
                 response.uri_base = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_XML_LANG {
-                response.language = Some(LanguageTag::from_str(&attribute.value)?);
+                // the empty language ends the one around this element.
+                response.language = Some(if attribute.value.is_empty() {
+                    None
+                } else {
+                    Some(LanguageTag::from_str(&attribute.value)?)
+                });
             }
         } else if attribute.name.namespace == Some(rdf::namespace_str().to_string()) {
             if attribute.name.local_name == ATTRIBUTE_ABOUT {
-- 
2.43.0


From b73a5d5589011cc0e680c0532820b11c5e39275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:50 +0000
Subject: [PATCH 38/66] fix: rdftk_io: the RDF/XML reader dropped property
 attributes in the RDF namespace, rdf:type and rdf:value among them

---
 rdftk_io/src/xml/reader.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index e2ddd16..7c87ddb 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -7,7 +7,7 @@ use objio::ObjectReader;
 use rdftk_core::error::{invalid_state_error, Error};
 use rdftk_core::model::graph::Graph;
 use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
-use rdftk_core::model::statement::{BlankNode, Statement, SubjectNode};
+use rdftk_core::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::Iri;
 use rdftk_names::rdf;
 use std::io::Read;
@@ -305,15 +305,17 @@ fn parse_predicate_attributes(
             "XmlReader::parse_predicate_attributes attribute: {:?}",
             attribute
         );
-        let literal = match &scope.language {
-            Some(language) => Literal::with_language(&attribute.value, language.clone()),
-            None => Literal::plain(&attribute.value),
+        let predicate = name_to_iri(&attribute.name)?;
+        let object: ObjectNode = if &predicate == rdf::a_type() {
+            value_to_iri(&attribute.value)?.into()
+        } else {
+            match &scope.language {
+                Some(language) => Literal::with_language(&attribute.value, language.clone()),
+                None => Literal::plain(&attribute.value),
+            }
+            .into()
         };
-        graph.insert(Statement::new(
-            subject.clone(),
-            name_to_iri(&attribute.name)?,
-            literal,
-        ));
+        graph.insert(Statement::new(subject.clone(), predicate, object));
     }
     Ok(())
 }
@@ -633,6 +635,9 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
                     // SPEC: §7.2.20 Production parseTypeOtherPropertyElt
                     response.parse_type = Some(ParseType::XmlLiteral);
                 }
+            } else {
+                // rdf:type, rdf:value, rdf:_1, and the like.
+                response.inner.push(attribute);
             }
         } else {
             response.inner.push(attribute);
-- 
2.43.0


From 787190fc87b2f91720e5e51a96eb7dc70c13a7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 39/66] fix: rdftk_io: the RDF/XML reader appended rdf:ID to
 the base without the '#' of a fragment

---
 rdftk_io/src/xml/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 7c87ddb..07092af 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -259,7 +259,7 @@ fn parse_subject_element<R: Read>(
             let Some(xml_base) = &scope.xml_base else {
                 error_event!(state => "parse_subject_element", "rdf:ID without xml:base");
             };
-            value_to_iri(&format!("{xml_base:#}{subject}"))?.into()
+            value_to_iri(&format!("{:#}#{subject}", xml_base.with_no_fragment()))?.into()
         }
         Some(SubjectType::BlankNamed(subject)) => {
             // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
-- 
2.43.0


From 15b6e2ef3b1ade0a8b7f68520c694711f5e6948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:13 +0000
Subject: [PATCH 40/66] fix: rdftk_io: the RDF/XML reader dropped the property
 attributes of property elements

---
 rdftk_io/src/xml/reader.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 07092af..d1fc28e 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -342,16 +342,44 @@ fn parse_predicate_element<R: Read>(
                     graph.insert(Statement::new(
                         subject.clone(),
                         name_to_iri(name)?,
-                        resource,
+                        resource.clone(),
                     ));
+                    parse_predicate_attributes(
+                        &attributes.inner,
+                        &scope,
+                        &resource.into(),
+                        graph,
+                    )?;
                     parse_empty_element(event_reader)?;
                 } else if let Some(SubjectType::BlankNamed(object)) = attributes.subject_type {
                     // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
+                    let object = BlankNode::from_str(&object)?;
                     graph.insert(Statement::new(
                         subject.clone(),
                         name_to_iri(name)?,
-                        BlankNode::from_str(&object)?,
+                        object.clone(),
                     ));
+                    parse_predicate_attributes(
+                        &attributes.inner,
+                        &scope,
+                        &object.into(),
+                        graph,
+                    )?;
+                    parse_empty_element(event_reader)?;
+                } else if attributes.parse_type.is_none() && !attributes.inner.is_empty() {
+                    // SPEC: §2.12 Omitting Nodes: Property Attributes on an empty Property Element
+                    let object = BlankNode::generate();
+                    graph.insert(Statement::new(
+                        subject.clone(),
+                        name_to_iri(name)?,
+                        object.clone(),
+                    ));
+                    parse_predicate_attributes(
+                        &attributes.inner,
+                        &scope,
+                        &object.into(),
+                        graph,
+                    )?;
                     parse_empty_element(event_reader)?;
                 } else {
                     match attributes.parse_type {
-- 
2.43.0


From 21896a774a8974efc81e9f35fd20f775bb46fa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:44 +0000
Subject: [PATCH 41/66] fix: rdftk_io: the RDF/XML reader took rdf:li for a
 property instead of numbering the members

---
 rdftk_io/src/xml/reader.rs | 66 +++++++++++++-------------------------
 rdftk_io/src/xml/syntax.rs |  1 +
 2 files changed, 23 insertions(+), 44 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index d1fc28e..01379d5 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -1,7 +1,7 @@
 use crate::xml::syntax::{
     ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE,
-    ATTRIBUTE_RESOURCE, ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_RDF,
-    PARSE_TYPE_COLLECTION, PARSE_TYPE_LITERAL, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
+    ATTRIBUTE_RESOURCE, ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_LI,
+    ELEMENT_RDF, PARSE_TYPE_COLLECTION, PARSE_TYPE_LITERAL, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
 };
 use objio::ObjectReader;
 use rdftk_core::error::{invalid_state_error, Error};
@@ -326,6 +326,8 @@ fn parse_predicate_element<R: Read>(
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
+    let li_element = ExpectedName::new(ELEMENT_LI, rdf::namespace_str());
+    let mut members: usize = 0;
     loop {
         let event = event_reader.next();
         match &event {
@@ -337,49 +339,29 @@ fn parse_predicate_element<R: Read>(
                 trace_event!("parse_predicate_element" => event);
                 let attributes = parse_attributes(attributes)?;
                 let scope = scope.within(&attributes);
+                let predicate = if li_element.matches(name) {
+                    // SPEC: §2.15 Container Membership Property Elements: rdf:li and rdf:_n
+                    members += 1;
+                    rdf::member(members)
+                } else {
+                    name_to_iri(name)?
+                };
                 if let Some(resource) = attributes.resource {
                     // SPEC: §2.4 Empty Property Elements
-                    graph.insert(Statement::new(
-                        subject.clone(),
-                        name_to_iri(name)?,
-                        resource.clone(),
-                    ));
-                    parse_predicate_attributes(
-                        &attributes.inner,
-                        &scope,
-                        &resource.into(),
-                        graph,
-                    )?;
+                    graph.insert(Statement::new(subject.clone(), predicate, resource.clone()));
+                    parse_predicate_attributes(&attributes.inner, &scope, &resource.into(), graph)?;
                     parse_empty_element(event_reader)?;
                 } else if let Some(SubjectType::BlankNamed(object)) = attributes.subject_type {
                     // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
                     let object = BlankNode::from_str(&object)?;
-                    graph.insert(Statement::new(
-                        subject.clone(),
-                        name_to_iri(name)?,
-                        object.clone(),
-                    ));
-                    parse_predicate_attributes(
-                        &attributes.inner,
-                        &scope,
-                        &object.into(),
-                        graph,
-                    )?;
+                    graph.insert(Statement::new(subject.clone(), predicate, object.clone()));
+                    parse_predicate_attributes(&attributes.inner, &scope, &object.into(), graph)?;
                     parse_empty_element(event_reader)?;
                 } else if attributes.parse_type.is_none() && !attributes.inner.is_empty() {
                     // SPEC: §2.12 Omitting Nodes: Property Attributes on an empty Property Element
                     let object = BlankNode::generate();
-                    graph.insert(Statement::new(
-                        subject.clone(),
-                        name_to_iri(name)?,
-                        object.clone(),
-                    ));
-                    parse_predicate_attributes(
-                        &attributes.inner,
-                        &scope,
-                        &object.into(),
-                        graph,
-                    )?;
+                    graph.insert(Statement::new(subject.clone(), predicate, object.clone()));
+                    parse_predicate_attributes(&attributes.inner, &scope, &object.into(), graph)?;
                     parse_empty_element(event_reader)?;
                 } else {
                     match attributes.parse_type {
@@ -388,7 +370,7 @@ fn parse_predicate_element<R: Read>(
                                 // SPEC: §2.2 Node Elements and Property Elements
                                 graph.insert(Statement::new(
                                     subject.clone(),
-                                    name_to_iri(name)?,
+                                    predicate,
                                     object.to_object(),
                                 ));
                             }
@@ -402,11 +384,7 @@ fn parse_predicate_element<R: Read>(
                                 } else {
                                     Literal::plain(&content)
                                 };
-                                graph.insert(Statement::new(
-                                    subject.clone(),
-                                    name_to_iri(name)?,
-                                    literal,
-                                ));
+                                graph.insert(Statement::new(subject.clone(), predicate, literal));
                             }
                         },
                         Some(ParseType::XmlLiteral) => {
@@ -416,7 +394,7 @@ fn parse_predicate_element<R: Read>(
                                 .replace('>', "&gt;");
                             graph.insert(Statement::new(
                                 subject.clone(),
-                                name_to_iri(name)?,
+                                predicate,
                                 Literal::with_data_type(&content, DataType::XmlLiteral),
                             ));
                         }
@@ -425,7 +403,7 @@ fn parse_predicate_element<R: Read>(
                             let subject_node = BlankNode::generate();
                             graph.insert(Statement::new(
                                 subject.clone(),
-                                name_to_iri(name)?,
+                                predicate,
                                 subject_node.clone(),
                             ));
                             parse_predicate_element(
@@ -455,7 +433,7 @@ fn parse_predicate_element<R: Read>(
                             }
                             graph.insert(Statement::new(
                                 subject.clone(),
-                                name_to_iri(name)?,
+                                predicate,
                                 list.to_object(),
                             ));
                         }
diff --git a/rdftk_io/src/xml/syntax.rs b/rdftk_io/src/xml/syntax.rs
index 1cb883b..e266af7 100644
--- a/rdftk_io/src/xml/syntax.rs
+++ b/rdftk_io/src/xml/syntax.rs
@@ -21,6 +21,7 @@ pub(super) const ATTRIBUTE_XML_LANG: &str = "lang";
 pub(super) const ATTRIBUTE_XML_LANG_PREFIXED: &str = "xml:lang";
 
 pub(super) const ELEMENT_DESCRIPTION: &str = "Description";
+pub(super) const ELEMENT_LI: &str = "li";
 pub(super) const ELEMENT_RDF: &str = "RDF";
 
 pub(super) const PARSE_TYPE_COLLECTION: &str = "Collection";
-- 
2.43.0


From 0c7fe1e645d7b30ed7d89619678a957adbfe719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:59 +0000
Subject: [PATCH 42/66] fix: rdftk_io: the RDF/XML reader dropped the
 reification that rdf:ID on a property element stands for

---
 rdftk_io/src/xml/reader.rs | 113 +++++++++++++++++++++++++++----------
 1 file changed, 83 insertions(+), 30 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 01379d5..bf87999 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -61,6 +61,7 @@ enum ParseType {
 #[derive(Clone, Debug)]
 struct Attributes<'a> {
     subject_type: Option<SubjectType>,
+    id: Option<&'a str>,
     parse_type: Option<ParseType>,
     uri_base: Option<Iri>,
     data_type: Option<Iri>,
@@ -256,10 +257,7 @@ fn parse_subject_element<R: Read>(
         }
         Some(SubjectType::RelativeResource(subject)) => {
             // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
-            let Some(xml_base) = &scope.xml_base else {
-                error_event!(state => "parse_subject_element", "rdf:ID without xml:base");
-            };
-            value_to_iri(&format!("{:#}#{subject}", xml_base.with_no_fragment()))?.into()
+            id_to_iri(subject, &scope)?.into()
         }
         Some(SubjectType::BlankNamed(subject)) => {
             // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
@@ -292,6 +290,31 @@ fn value_to_iri(name: &str) -> Result<Iri, Error> {
     Ok(Iri::from_str(name)?)
 }
 
+fn id_to_iri(id: &str, scope: &Scope) -> Result<Iri, Error> {
+    let Some(xml_base) = &scope.xml_base else {
+        error_event!(state => "id_to_iri", "rdf:ID without xml:base");
+    };
+    value_to_iri(&format!("{:#}#{id}", xml_base.with_no_fragment()))
+}
+
+///
+/// Insert the statement of a property element, and its reification if that has an identifier.
+///
+fn insert_property(graph: &mut Graph, id: &Option<Iri>, statement: Statement) {
+    if let Some(id) = id {
+        let (subject, predicate) = (statement.subject(), statement.predicate());
+        for (property, value) in [
+            (rdf::a_type(), rdf::statement().clone().into()),
+            (rdf::subject(), subject.to_object()),
+            (rdf::predicate(), predicate.clone().into()),
+            (rdf::object(), statement.object().clone()),
+        ] {
+            graph.insert(Statement::new(id.clone(), property.clone(), value));
+        }
+    }
+    graph.insert(statement);
+}
+
 fn parse_predicate_attributes(
     attributes: &[&OwnedAttribute],
     scope: &Scope,
@@ -339,6 +362,11 @@ fn parse_predicate_element<R: Read>(
                 trace_event!("parse_predicate_element" => event);
                 let attributes = parse_attributes(attributes)?;
                 let scope = scope.within(&attributes);
+                // SPEC: §2.17 Reifying Statements: rdf:ID
+                let id = match attributes.id {
+                    Some(id) => Some(id_to_iri(id, &scope)?),
+                    None => None,
+                };
                 let predicate = if li_element.matches(name) {
                     // SPEC: §2.15 Container Membership Property Elements: rdf:li and rdf:_n
                     members += 1;
@@ -348,19 +376,31 @@ fn parse_predicate_element<R: Read>(
                 };
                 if let Some(resource) = attributes.resource {
                     // SPEC: §2.4 Empty Property Elements
-                    graph.insert(Statement::new(subject.clone(), predicate, resource.clone()));
+                    insert_property(
+                        graph,
+                        &id,
+                        Statement::new(subject.clone(), predicate, resource.clone()),
+                    );
                     parse_predicate_attributes(&attributes.inner, &scope, &resource.into(), graph)?;
                     parse_empty_element(event_reader)?;
                 } else if let Some(SubjectType::BlankNamed(object)) = attributes.subject_type {
                     // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
                     let object = BlankNode::from_str(&object)?;
-                    graph.insert(Statement::new(subject.clone(), predicate, object.clone()));
+                    insert_property(
+                        graph,
+                        &id,
+                        Statement::new(subject.clone(), predicate, object.clone()),
+                    );
                     parse_predicate_attributes(&attributes.inner, &scope, &object.into(), graph)?;
                     parse_empty_element(event_reader)?;
                 } else if attributes.parse_type.is_none() && !attributes.inner.is_empty() {
                     // SPEC: §2.12 Omitting Nodes: Property Attributes on an empty Property Element
                     let object = BlankNode::generate();
-                    graph.insert(Statement::new(subject.clone(), predicate, object.clone()));
+                    insert_property(
+                        graph,
+                        &id,
+                        Statement::new(subject.clone(), predicate, object.clone()),
+                    );
                     parse_predicate_attributes(&attributes.inner, &scope, &object.into(), graph)?;
                     parse_empty_element(event_reader)?;
                 } else {
@@ -368,11 +408,11 @@ fn parse_predicate_element<R: Read>(
                         None => match parse_object_element(event_reader, &scope, graph)? {
                             ObjectContent::Node(object) => {
                                 // SPEC: §2.2 Node Elements and Property Elements
-                                graph.insert(Statement::new(
-                                    subject.clone(),
-                                    predicate,
-                                    object.to_object(),
-                                ));
+                                insert_property(
+                                    graph,
+                                    &id,
+                                    Statement::new(subject.clone(), predicate, object.to_object()),
+                                );
                             }
                             ObjectContent::Text(content) => {
                                 let literal = if let Some(data_type) = attributes.data_type {
@@ -384,7 +424,11 @@ fn parse_predicate_element<R: Read>(
                                 } else {
                                     Literal::plain(&content)
                                 };
-                                graph.insert(Statement::new(subject.clone(), predicate, literal));
+                                insert_property(
+                                    graph,
+                                    &id,
+                                    Statement::new(subject.clone(), predicate, literal),
+                                );
                             }
                         },
                         Some(ParseType::XmlLiteral) => {
@@ -392,20 +436,24 @@ fn parse_predicate_element<R: Read>(
                             let content = parse_xml_literal_element(event_reader)?
                                 .replace('<', "&lt;")
                                 .replace('>', "&gt;");
-                            graph.insert(Statement::new(
-                                subject.clone(),
-                                predicate,
-                                Literal::with_data_type(&content, DataType::XmlLiteral),
-                            ));
+                            insert_property(
+                                graph,
+                                &id,
+                                Statement::new(
+                                    subject.clone(),
+                                    predicate,
+                                    Literal::with_data_type(&content, DataType::XmlLiteral),
+                                ),
+                            );
                         }
                         Some(ParseType::Resource) => {
                             // SPEC: §2.11 Omitting Blank Nodes: rdf:parseType="Resource"
                             let subject_node = BlankNode::generate();
-                            graph.insert(Statement::new(
-                                subject.clone(),
-                                predicate,
-                                subject_node.clone(),
-                            ));
+                            insert_property(
+                                graph,
+                                &id,
+                                Statement::new(subject.clone(), predicate, subject_node.clone()),
+                            );
                             parse_predicate_element(
                                 event_reader,
                                 &scope,
@@ -431,11 +479,11 @@ fn parse_predicate_element<R: Read>(
                                 ));
                                 list = node;
                             }
-                            graph.insert(Statement::new(
-                                subject.clone(),
-                                predicate,
-                                list.to_object(),
-                            ));
+                            insert_property(
+                                graph,
+                                &id,
+                                Statement::new(subject.clone(), predicate, list.to_object()),
+                            );
                         }
                     }
                 }
@@ -597,6 +645,7 @@ fn parse_xml_literal_element<R: Read>(
 fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Error> {
     let mut response = Attributes {
         subject_type: None,
+        id: None,
         parse_type: None,
         uri_base: None,
         data_type: None,
@@ -624,8 +673,12 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
             } else if attribute.name.local_name == ATTRIBUTE_NODE_ID {
                 response.subject_type = Some(SubjectType::BlankNamed(attribute.value.to_string()));
             } else if attribute.name.local_name == ATTRIBUTE_ID {
-                response.subject_type =
-                    Some(SubjectType::RelativeResource(attribute.value.to_string()));
+                // on a property element this may be there beside rdf:nodeID
+                response.id = Some(&attribute.value);
+                if response.subject_type.is_none() {
+                    response.subject_type =
+                        Some(SubjectType::RelativeResource(attribute.value.to_string()));
+                }
             } else if attribute.name.local_name == ATTRIBUTE_DATATYPE {
                 response.data_type = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_RESOURCE {
-- 
2.43.0


From 1abb906a1ea365288790d07a5ad40f92204ec3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:22 +0000
Subject: [PATCH 43/66] fix: rdftk_io: blank node labels with consecutive dots,
 which may be written, could not be read

---
 rdftk_io/src/common/common.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/common/common.pest b/rdftk_io/src/common/common.pest
index 8c04b42..336e33d 100644
--- a/rdftk_io/src/common/common.pest
+++ b/rdftk_io/src/common/common.pest
@@ -338,7 +338,7 @@ BLANK_NODE_LABEL = @{
 
 BLANK_NODE_LABEL_TAIL = {
     PN_CHARS
-  | &("." ~ PN_CHARS) ~ "."
+  | &("."+ ~ PN_CHARS) ~ "."
 }
 
 ANON = {
-- 
2.43.0


From 99d07fabc352121ae94768e5fe86f90ed84eb3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 44/66] fix: rdftk_io: Turtle was written with doubled escapes
 in strings, numbers of another data type, and IRIs for anyURI literals

---
 rdftk_io/src/turtle/writer.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index ea24bec..6c32ac6 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -776,24 +776,16 @@ impl TurtleWriter {
     fn write_literal<W: Write>(&self, w: &mut W, graph: &Graph, literal: &Literal) -> Result<()> {
         trace!(name: "write_literal", ?literal);
         Ok(match literal.data_type() {
-            Some(DataType::Iri) => {
-                let iri = Iri::from_str(literal.lexical_form())?;
-                self.write_iri(w, graph, &iri)?
+            // Only these have a short form, and only for some of their lexical forms; a bare `1` is
+            // an `xsd:integer` and a bare `1.0` an `xsd:decimal`, whatever they were here.
+            Some(DataType::Boolean) if matches!(literal.lexical_form().as_str(), "true" | "false") => {
+                write!(w, "{}", literal.lexical_form())?
+            }
+            Some(DataType::Decimal) if is_bare_decimal(literal.lexical_form()) => {
+                write!(w, "{}", literal.lexical_form())?
             }
-            Some(DataType::Boolean)
-            | Some(DataType::Long)
-            | Some(DataType::Int)
-            | Some(DataType::Short)
-            | Some(DataType::Byte)
-            | Some(DataType::UnsignedLong)
-            | Some(DataType::UnsignedInt)
-            | Some(DataType::UnsignedShort)
-            | Some(DataType::UnsignedByte)
-            | Some(DataType::Float)
-            | Some(DataType::Double)
-            | Some(DataType::Decimal) => write!(w, "{}", literal.lexical_form())?,
             _ => {
-                write!(w, "{:?}", literal.lexical_form())?;
+                write!(w, "\"{}\"", literal.lexical_form())?;
                 match (literal.data_type(), literal.language()) {
                     (Some(data_type), None) => {
                         write!(w, "{DATATYPE_PREFIX}")?;
@@ -984,6 +976,17 @@ impl TurtleWriter {
     }
 }
 
+/// ```text
+/// [20]  DECIMAL  ::= [+-]? [0-9]* '.' [0-9]+
+/// ```
+fn is_bare_decimal(value: &str) -> bool {
+    let digits = |s: &str| s.chars().all(|c| c.is_ascii_digit());
+    match value.strip_prefix(['+', '-']).unwrap_or(value).split_once('.') {
+        Some((whole, fraction)) => digits(whole) && digits(fraction) && !fraction.is_empty(),
+        None => false,
+    }
+}
+
 // ------------------------------------------------------------------------------------------------
 // Implementations > Ordering
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 47ff84670cc0b3678f94d54b2654a24079e652b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 45/66] fix: rdftk_io: Turtle was written with rdf:type in
 place of rdfs:subClassOf, rdfs:subPropertyOf and owl:equivalentClass

---
 rdftk_io/src/turtle/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 6c32ac6..e72ebc4 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -689,7 +689,7 @@ impl TurtleWriter {
     ) -> Result<()> {
         trace!(name: "write_verb", ?predicate, ?group, max_len, ?flags);
         // Special treatment for `rdf:type`; show it in turtle as just "a"
-        if group == PredicateGroupOrdering::Type {
+        if predicate == rdf::a_type() {
             let type_verb = if self.options.use_rdf_type_a {
                 RDF_TYPE_A.to_string()
             } else {
-- 
2.43.0


From 9c34a71f1a33202b488e80ca81e94968924961f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:48 +0000
Subject: [PATCH 46/66] fix: rdftk_io: the order of predicates in Turtle
 depended on the keys of a hash map

---
 rdftk_io/src/turtle/writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index e72ebc4..be0f8d3 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -998,6 +998,7 @@ impl PredicateGroupOrdering {
     fn group_predicates<'a>(predicates: &[&'a Iri]) -> Vec<(PredicateGroupOrdering, Vec<&'a Iri>)> {
         let mut result = predicates
             .iter()
+            .sorted_by_key(Self::group_predicate)
             .chunk_by(Self::group_predicate)
             .into_iter()
             .map(|(triple_type, group)| (triple_type, group.cloned().collect()))
-- 
2.43.0


From a1fd03a314bdfa940017c0f10d2bd1c9e1c95553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:49 +0000
Subject: [PATCH 47/66] fix: rdftk_io: the members of a collection in Turtle
 were separated by commas, which Turtle does not have there

---
 rdftk_io/src/turtle/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index be0f8d3..2b792a2 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -897,7 +897,7 @@ impl TurtleWriter {
             for (idx, object) in collection.iter().enumerate() {
                 self.write_object(w, graph, object, flags)?;
                 if idx < collection.len() - 1 {
-                    write!(w, "{OBJECT_SEPARATOR}{SPACE_SEPARATOR}")?;
+                    write!(w, "{SPACE_SEPARATOR}")?;
                 }
             }
             if self.options.outdent_collection_end {
-- 
2.43.0


From ca87a4c641056c3f7490c897bd57208c5542730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:32 +0000
Subject: [PATCH 48/66] fix: rdftk_io: the Turtle writer panicked on nested
 statements, but for those that are the object of another

---
 rdftk_io/src/turtle/writer.rs | 40 +++++++++++++++--------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 2b792a2..2f32574 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -344,29 +344,11 @@ impl ObjectWriter<Graph> for TurtleWriter {
     where
         W: Write,
     {
-        let (nested, plain): (Vec<_>, Vec<_>) =
-            graph.statements().partition(|stmt| stmt.is_nested());
-
-        let mut reified_statements: Vec<Statement> = nested
-            .into_iter()
-            .map(|stmt| {
-                let (subject, mut new) = stmt.reify().unwrap();
-                new.push(Statement::new(
-                    stmt.subject(),
-                    stmt.predicate().clone(),
-                    subject.to_object(),
-                ));
-                new
-            })
-            .flatten()
-            .collect();
-        plain
-            .into_iter()
-            .for_each(|s| reified_statements.push(s.clone()));
-
-        let mut denested_graph = Graph::from(reified_statements);
-        denested_graph.set_prefix_mappings(graph.prefix_mappings().clone());
-        self.write_turtle_doc(w, &denested_graph)
+        if graph.statements().any(has_nested_statement) {
+            self.write_turtle_doc(w, &graph.simplify()?)
+        } else {
+            self.write_turtle_doc(w, graph)
+        }
     }
 }
 
@@ -976,6 +958,18 @@ impl TurtleWriter {
     }
 }
 
+/// Returns `true` if there is a statement in `statement`, at any depth.
+fn has_nested_statement(statement: &Statement) -> bool {
+    fn in_object(object: &ObjectNode) -> bool {
+        match object {
+            ObjectNode::Statement(_) => true,
+            ObjectNode::Collection(members) => members.iter().any(in_object),
+            _ => false,
+        }
+    }
+    statement.subject().is_statement() || in_object(statement.object())
+}
+
 /// ```text
 /// [20]  DECIMAL  ::= [+-]? [0-9]* '.' [0-9]+
 /// ```
-- 
2.43.0


From f8ce88d703b6eba6c5d90dec28805e866d69e5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:57 +0000
Subject: [PATCH 49/66] fix: rdftk_io: blank nodes in Turtle were written
 twice, split where used twice, lost a name used elsewhere, or never ended on
 a cycle

---
 rdftk_io/src/turtle/writer.rs | 80 +++++++++++++++++++++++++++--------
 1 file changed, 63 insertions(+), 17 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 2f32574..a57782c 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -6,7 +6,7 @@ use rdftk_core::{
     model::{
         graph::Graph,
         literal::{DataType, Literal},
-        statement::{Collection, ObjectNode, Statement, SubjectNode},
+        statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode},
     },
 };
 use rdftk_iri::Iri;
@@ -110,7 +110,10 @@ enum PredicateGroupOrdering {
 #[derive(Clone, Debug, Default)]
 struct WriterContext {
     indenter: Indenter,
-    blanks_to_write: HashSet<SubjectNode>,
+    /// The blank nodes that have a label and are written as subjects of their own, in order.
+    blanks_to_write: Vec<SubjectNode>,
+    /// The blank nodes that are written where they are used, without a label.
+    nested_blanks: HashSet<BlankNode>,
 }
 
 const DECL_BASE_TTL: &str = "@base";
@@ -458,14 +461,21 @@ impl TurtleWriter {
             let mut context_mut = self.context.borrow_mut();
             context_mut.indenter =
                 Indenter::default().with_default_indent_width(self.options.indent_width());
-            // Initialize with all the blank nodes in the graph
+            context_mut.nested_blanks = if self.options.nest_blank_nodes() {
+                nestable_blanks(graph)
+            } else {
+                HashSet::default()
+            };
+            // Initialize with all the other blank nodes in the graph
             context_mut.blanks_to_write = graph
                 .blank_node_subjects()
-                .iter()
-                .map(|s| {
-                    let s = *s;
-                    s.clone()
+                .into_iter()
+                .filter(|s| {
+                    s.as_blank()
+                        .is_some_and(|blank| !context_mut.nested_blanks.contains(blank))
                 })
+                .sorted()
+                .cloned()
                 .collect();
         }
 
@@ -568,10 +578,7 @@ impl TurtleWriter {
             writeln!(w)?;
         }
 
-        // The given cursor object collects all the blank-node objects that have not
-        // been written to the turtle file yet but have been referred to during
-        // the call to `write_normal_subjects` above. Now process those
-        // unwritten blank nodes and add them to the end of the file.
+        // The blank nodes that were not written where they are used go to the end of the file.
         let context = self.context.borrow();
         // Iterate over all blank nodes
         for subject in context.blanks_to_write.iter() {
@@ -830,13 +837,10 @@ impl TurtleWriter {
         trace!(name: "write_object", ?object, ?flags);
         match &object {
             ObjectNode::Blank(blank) => {
-                if self.options.nest_blank_nodes()
-                    && graph.contains_subject(&object.to_subject().unwrap())
-                {
+                let is_nested = self.context.borrow().nested_blanks.contains(blank);
+                if is_nested && graph.contains_subject(&object.to_subject().unwrap()) {
                     self.write_blank_node_property_list(w, graph, object, flags)?;
-                } else if self.options.nest_blank_nodes()
-                    && !graph.contains_subject(&object.to_subject().unwrap())
-                {
+                } else if is_nested {
                     write!(w, "{BLANK_NODE_START}{BLANK_NODE_END}")?;
                 } else {
                     write!(w, "{BLANK_NODE_PREFIX}{NAME_SEPARATOR}{blank}",)?;
@@ -958,6 +962,48 @@ impl TurtleWriter {
     }
 }
 
+/// Returns the blank nodes that can do without a label: those used exactly once, unless writing
+/// them there would never end.
+fn nestable_blanks(graph: &Graph) -> HashSet<BlankNode> {
+    fn add_uses<'a>(
+        subject: &'a SubjectNode,
+        object: &'a ObjectNode,
+        users: &mut BTreeMap<&'a BlankNode, Vec<&'a SubjectNode>>,
+    ) {
+        match object {
+            ObjectNode::Blank(blank) => users.entry(blank).or_default().push(subject),
+            ObjectNode::Collection(members) => members
+                .iter()
+                .for_each(|member| add_uses(subject, member, users)),
+            _ => {}
+        }
+    }
+    let mut users: BTreeMap<&BlankNode, Vec<&SubjectNode>> = Default::default();
+    for statement in graph.statements().collect::<HashSet<_>>() {
+        add_uses(statement.subject(), statement.object(), &mut users);
+    }
+    users.retain(|_, subjects| subjects.len() == 1);
+
+    let mut nestable: HashSet<BlankNode> = users.keys().map(|blank| (*blank).clone()).collect();
+    let mut done: HashSet<&BlankNode> = Default::default();
+    for blank in users.keys() {
+        // From user to user, back to here only on a cycle of blank nodes.
+        let mut path: HashSet<&BlankNode> = Default::default();
+        let mut current = Some(*blank);
+        while let Some(blank) = current.filter(|blank| !done.contains(blank)) {
+            if !path.insert(blank) {
+                nestable.remove(blank);
+                break;
+            }
+            current = users[blank][0]
+                .as_blank()
+                .filter(|user| users.contains_key(user));
+        }
+        done.extend(path);
+    }
+    nestable
+}
+
 /// Returns `true` if there is a statement in `statement`, at any depth.
 fn has_nested_statement(statement: &Statement) -> bool {
     fn in_object(object: &ObjectNode) -> bool {
-- 
2.43.0


From 638a6eea9d65e4d9be7e02d6950294abaa9c649e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:05 +0000
Subject: [PATCH 50/66] fix: rdftk_io: Turtle shortened IRIs to references that
 the base does not resolve to the same IRI

---
 rdftk_io/src/turtle/writer.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index a57782c..23fd4ee 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -720,14 +720,13 @@ impl TurtleWriter {
             if let Some(ref convert_to_id_base) = self.options.convert_to_id_base() {
                 let target_id_base = format!("{convert_to_id_base:#}");
                 if iri_str.starts_with(target_id_base.as_str()) {
-                    return Ok(format!(
-                        "{IRI_START}{}{IRI_END}",
-                        &iri_str[target_id_base.len()..]
-                    ));
+                    iri_str = format!("{id_base:#}{}", &iri_str[target_id_base.len()..]);
                 }
             }
             let id_base_str = format!("{id_base:#}");
-            if iri_str.starts_with(id_base_str.as_str()) {
+            if iri_str.starts_with(id_base_str.as_str())
+                && is_resolved_by_appending(&id_base_str, &iri_str[id_base_str.len()..])
+            {
                 return Ok(format!(
                     "{IRI_START}{}{IRI_END}",
                     &iri_str[id_base_str.len()..]
@@ -1004,6 +1003,20 @@ fn nestable_blanks(graph: &Graph) -> HashSet<BlankNode> {
     nestable
 }
 
+/// Returns `true` if the reference `rest`, resolved against `base`, is `base` followed by `rest`.
+fn is_resolved_by_appending(base: &str, rest: &str) -> bool {
+    let first_segment = rest.split(['/', '?', '#']).next().unwrap_or_default();
+    let path = rest.split(['?', '#']).next().unwrap_or_default();
+    // otherwise the last segment of the base is replaced ...
+    base.ends_with('/')
+        && base.contains("://")
+        && !base.contains(['?', '#'])
+        // ... or what looks like a scheme, a host or dots has a meaning of its own.
+        && !first_segment.contains(':')
+        && !path.starts_with('/')
+        && !path.split('/').any(|segment| segment == "." || segment == "..")
+}
+
 /// Returns `true` if there is a statement in `statement`, at any depth.
 fn has_nested_statement(statement: &Statement) -> bool {
     fn in_object(object: &ObjectNode) -> bool {
-- 
2.43.0


From 833bea91255a211f5666a1fc4302f4a9088a509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 51/66] fix: rdftk_io: RDF/XML was written with properties
 RDF/XML has no name for (rdf:li, rdf:about, rdf:Description, ...), which made
 it another graph or none

---
 rdftk_io/src/xml/writer.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 85ae559..b7bce70 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -268,7 +268,7 @@ impl XmlWriter {
         }
 
         for predicate in graph.predicates_for(subject) {
-            let (ns, name) = split_uri(predicate)?;
+            let (ns, name) = split_property(predicate)?;
             let prefix = self.mappings.get(&ns);
             let name = match prefix {
                 Some(prefix) => format!("{prefix}:{name}"),
@@ -400,6 +400,32 @@ fn nested_blank_nodes(graph: &Graph) -> HashSet<&BlankNode> {
         .collect()
 }
 
+///
+/// The names RDF/XML does not have for properties; `rdf:li` it has, but that stands for another one.
+///
+const NOT_A_PROPERTY: &[&str] = &[
+    ATTRIBUTE_ABOUT,
+    ATTRIBUTE_DATATYPE,
+    ATTRIBUTE_NODE_ID,
+    ATTRIBUTE_RESOURCE,
+    ELEMENT_DESCRIPTION,
+    ELEMENT_RDF,
+    "ID",
+    "aboutEach",
+    "aboutEachPrefix",
+    "bagID",
+    "li",
+    "parseType",
+];
+
+fn split_property(iri: &Iri) -> Result<(String, String), Error> {
+    let iri_str: &str = iri.as_ref();
+    match iri_str.strip_prefix(rdf::namespace_str()) {
+        Some(name) if NOT_A_PROPERTY.contains(&name) => Err(invalid_state_error()),
+        _ => split_uri(iri),
+    }
+}
+
 ///
 /// Split the IRI of a property into a namespace and a local name, the longest one which XML allows
 /// as the name of an element.
-- 
2.43.0


From 7540cf0f8ec55deeeb57b828571eb442f6868d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 52/66] fix: compare and convert the value of a literal, not
 its escaped form

A literal was not equal to the string or IRI it was made from if that has characters that are
escaped, and was converted to a different IRI.
---
 rdftk_core/src/model/literal.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 841dcf0..9a436cb 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -398,7 +398,7 @@ impl From<&Iri> for Literal {
 
 impl PartialEq<Iri> for Literal {
     fn eq(&self, other: &Iri) -> bool {
-        self.lexical_form() == AsRef::<str>::as_ref(other)
+        self.unescaped_form() == AsRef::<str>::as_ref(other)
             && self.data_type() == Some(&DataType::Iri)
     }
 }
@@ -410,7 +410,7 @@ impl TryFrom<Literal> for Iri {
         match value.data_type() {
             Some(dt) => {
                 if *dt == DataType::Iri {
-                    Ok(value.lexical_form().parse::<Iri>()?)
+                    Ok(value.unescaped_form().parse::<Iri>()?)
                 } else {
                     Err(Error::InvalidLiteralTypeCooercion {
                         from_type: dt.to_string(),
@@ -629,14 +629,14 @@ impl From<&str> for Literal {
 
 impl PartialEq<String> for Literal {
     fn eq(&self, other: &String) -> bool {
-        self.lexical_form() == other
+        self.unescaped_form() == *other
             && (self.data_type().is_none() || self.data_type() == Some(&DataType::String))
     }
 }
 
 impl PartialEq<str> for Literal {
     fn eq(&self, other: &str) -> bool {
-        self.lexical_form() == other
+        self.unescaped_form() == *other
             && (self.data_type().is_none() || self.data_type() == Some(&DataType::String))
     }
 }
-- 
2.43.0


From f4d53d770891c86ccb00fd34a1daefce87095adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 53/66] fix: infinite floating point values are written as XML
 Schema names them

"inf" is not in the lexical space of xsd:double and xsd:float; it is INF.
---
 rdftk_core/src/model/literal.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 9a436cb..38c0638 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -510,13 +510,14 @@ impl PartialEq<rust_decimal::Decimal> for Literal {
 
 impl From<f64> for Literal {
     fn from(v: f64) -> Self {
-        Self::with_data_type(v.to_string(), DataType::Double)
+        // XML Schema has its own names for the infinities.
+        Self::with_data_type(v.to_string().replace("inf", "INF"), DataType::Double)
     }
 }
 
 impl PartialEq<f64> for Literal {
     fn eq(&self, other: &f64) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Double)
+        *self == Self::from(*other)
     }
 }
 
@@ -579,13 +580,14 @@ impl PartialEq<chrono::Duration> for Literal {
 
 impl From<f32> for Literal {
     fn from(v: f32) -> Self {
-        Self::with_data_type(v.to_string(), DataType::Float)
+        // XML Schema has its own names for the infinities.
+        Self::with_data_type(v.to_string().replace("inf", "INF"), DataType::Float)
     }
 }
 
 impl PartialEq<f32> for Literal {
     fn eq(&self, other: &f32) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Float)
+        *self == Self::from(*other)
     }
 }
 
-- 
2.43.0


From 692c513d0ec75b66c92a64479b4da0a86859b7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 54/66] fix: durations keep their nanoseconds

The fraction was written without leading zeros (5 ns became PT0.5S), and a duration was compared
with its number of nanoseconds, which no literal ever holds.
---
 rdftk_core/src/model/literal.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 38c0638..b67adce 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -531,7 +531,7 @@ impl From<Duration> for Literal {
         let nanos = v.subsec_nanos();
         Self::with_data_type(
             if nanos != 0 {
-                format!("PT{seconds}.{nanos}S")
+                format!("PT{seconds}.{nanos:09}S")
             } else {
                 format!("PT{seconds}S")
             },
@@ -562,8 +562,7 @@ impl From<&chrono::Duration> for Literal {
 
 impl PartialEq<Duration> for Literal {
     fn eq(&self, other: &Duration) -> bool {
-        *self.lexical_form() == other.as_nanos().to_string()
-            && self.data_type() == Some(&DataType::Duration)
+        *self == Self::from(other)
     }
 }
 
-- 
2.43.0


From 3acef3fc4b1a6a4030599bf6c4f411cdd02b5d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 55/66] fix: decode the hexBinary values that are encoded

The decoder only accepted digits separated by spaces, which is neither what the encoder writes
nor what XML Schema defines.
---
 rdftk_core/src/model/literal.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index b67adce..aabf4f3 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -1104,20 +1104,22 @@ fn hex_decode<S>(value: S) -> Result<Vec<u8>, Error>
 where
     S: AsRef<str>,
 {
-    let value = value.as_ref();
-    let mut buffer = Vec::with_capacity((value.len() + 1) / 3);
-    for (index, hex_pair) in value.split(" ").enumerate() {
-        if hex_pair.len() == 2 {
-            let byte = u8::from_str_radix(hex_pair, 16).map_err(|_| Error::HexDecoder {
-                value: hex_pair.to_string(),
-                index,
-            })?;
-            buffer.push(byte);
-        } else {
-            return Err(Error::HexDecoder {
-                value: hex_pair.to_string(),
-                index,
-            });
+    // pairs of digits; spaces between them are accepted but never written.
+    let digits: Vec<char> = value.as_ref().chars().filter(|c| *c != ' ').collect();
+    let mut buffer = Vec::with_capacity(digits.len() / 2);
+    for (index, hex_pair) in digits.chunks(2).enumerate() {
+        let byte = match hex_pair {
+            [high, low] => high.to_digit(16).zip(low.to_digit(16)),
+            _ => None,
+        };
+        match byte {
+            Some((high, low)) => buffer.push((high * 16 + low) as u8),
+            None => {
+                return Err(Error::HexDecoder {
+                    value: hex_pair.iter().collect(),
+                    index,
+                })
+            }
         }
     }
     Ok(buffer)
-- 
2.43.0


From f27fb0990e06c32687486bfd3c7eb64870038cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 56/66] fix: a literal with the IRI of a known data type has
 that data type

Literal::with_data_type_iri made every data type DataType::Other, so that such a literal was not
equal to the same literal made with the data type, while they are written the same.
---
 rdftk_core/src/model/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index aabf4f3..ac8fde8 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -976,7 +976,7 @@ impl Literal {
     {
         Self {
             lexical_form: escape_string(v),
-            data_type: Some(DataType::Other(data_type)),
+            data_type: Some(DataType::from(data_type)),
             language: None,
         }
     }
-- 
2.43.0


From e866502559714205acb9e06423869234bebd589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 57/66] fix: base64 literals have the data type
 xsd:base64Binary

They were typed xsd:hexBinary, and could not be decoded again.
---
 rdftk_core/src/model/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index ac8fde8..be0702b 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -987,7 +987,7 @@ impl Literal {
 
     #[cfg(feature = "binary_types")]
     pub fn base64_encoded(v: &[u8]) -> Self {
-        Self::with_data_type(STANDARD.encode(v), DataType::HexBinary)
+        Self::with_data_type(STANDARD.encode(v), DataType::Base64Binary)
     }
 
     // --------------------------------------------------------------------------------------------
-- 
2.43.0


From b08778bfc5b3d87049ea2788dd1019fcb9a699bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 58/66] fix: rdftk writes its log to standard error

Standard output is where documents are written: log lines in the midst of them made them
something else.
---
 rdftk_cli/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rdftk_cli/src/main.rs b/rdftk_cli/src/main.rs
index ce9f35d..3f7e6fe 100644
--- a/rdftk_cli/src/main.rs
+++ b/rdftk_cli/src/main.rs
@@ -105,7 +105,11 @@ fn init_logging(log_filter: LogFilter) -> Result<(), Error> {
             .parse()
             .map_err(unknown_error)?,
     );
-    let subscriber = FmtSubscriber::builder().with_env_filter(filter).finish();
+    let subscriber = FmtSubscriber::builder()
+        .with_env_filter(filter)
+        // standard output is for documents.
+        .with_writer(std::io::stderr)
+        .finish();
 
     tracing::subscriber::set_global_default(subscriber).map_err(unknown_error)?;
 
-- 
2.43.0


From 65af919e806eceb5a0864a79c643d01394b48792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 59/66] fix: rdftk creates its output after the input has been
 read

The output was created, and an existing file emptied, before anything was read: converting a file
in place lost it, as did any input that cannot be read.
---
 rdftk_cli/src/commands/draw.rs            | 6 ++++--
 rdftk_cli/src/commands/mod.rs             | 4 ++++
 rdftk_cli/src/commands/representations.rs | 6 ++++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/rdftk_cli/src/commands/draw.rs b/rdftk_cli/src/commands/draw.rs
index b67e130..a6c7b0f 100644
--- a/rdftk_cli/src/commands/draw.rs
+++ b/rdftk_cli/src/commands/draw.rs
@@ -27,7 +27,7 @@ pub(crate) struct DrawCmd {
     /// File name to write to, or '-' to write to stdout
     #[arg(short, long)]
     #[clap(value_parser, default_value = "-")]
-    output: clio::Output,
+    output: clio::OutputPath,
 }
 
 // ------------------------------------------------------------------------------------------------
@@ -54,7 +54,9 @@ impl Command for DrawCmd {
         } else {
             let graph = super::read_graph(&mut self.input, self.from)?;
             let writer = dot::DotWriter::default();
-            writer.write(&mut self.output, &graph)?;
+            // The output is only created, and what it held replaced, once the input has been read.
+            let mut output = super::create_output(self.output)?;
+            writer.write(&mut output, &graph)?;
             Ok(ExitCode::SUCCESS)
         }
     }
diff --git a/rdftk_cli/src/commands/mod.rs b/rdftk_cli/src/commands/mod.rs
index 687af36..4035157 100644
--- a/rdftk_cli/src/commands/mod.rs
+++ b/rdftk_cli/src/commands/mod.rs
@@ -125,6 +125,10 @@ pub(crate) fn read_dataset(
     Ok(graph)
 }
 
+pub(crate) fn create_output(path: clio::OutputPath) -> Result<clio::Output, Error> {
+    Ok(path.create().map_err(std::io::Error::from)?)
+}
+
 pub(crate) fn write_graph(
     graph: &Graph,
     output: &mut clio::Output,
diff --git a/rdftk_cli/src/commands/representations.rs b/rdftk_cli/src/commands/representations.rs
index 171e17e..5b42e16 100644
--- a/rdftk_cli/src/commands/representations.rs
+++ b/rdftk_cli/src/commands/representations.rs
@@ -16,7 +16,7 @@ pub(crate) struct ConvertCmd {
     /// File name to write to, or '-' to write to stdout
     #[arg(short, long)]
     #[clap(value_parser, default_value = "-")]
-    output: clio::Output,
+    output: clio::OutputPath,
 
     #[arg(short = 'f', long)]
     #[arg(value_enum)]
@@ -52,7 +52,9 @@ pub(crate) struct ConvertCmd {
 impl Command for ConvertCmd {
     fn execute(mut self) -> Result<ExitCode, Error> {
         let graph = super::read_graph(&mut self.input, self.from)?;
-        super::write_graph(&graph, &mut self.output, self.to)?;
+        // The output is only created, and what it held replaced, once the input has been read.
+        let mut output = super::create_output(self.output)?;
+        super::write_graph(&graph, &mut output, self.to)?;
         Ok(ExitCode::SUCCESS)
     }
 }
-- 
2.43.0


From ec1db7066b8be0ef82a830ad63bd19192b0b052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 60/66] fix: rdftk reports a failure to write the end of its
 output

What was left in the buffer of standard output was only written at exit, where errors are ignored:
the program exited with success although the end of the document was lost.
---
 rdftk_cli/src/commands/draw.rs            | 2 ++
 rdftk_cli/src/commands/representations.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/rdftk_cli/src/commands/draw.rs b/rdftk_cli/src/commands/draw.rs
index a6c7b0f..6c28bb5 100644
--- a/rdftk_cli/src/commands/draw.rs
+++ b/rdftk_cli/src/commands/draw.rs
@@ -3,6 +3,7 @@ use clap::Args;
 use objio::{ObjectWriter};
 use rdftk_core::{error::Error};
 use rdftk_io::{dot};
+use std::io::Write;
 use std::process::ExitCode;
 
 // ------------------------------------------------------------------------------------------------
@@ -57,6 +58,7 @@ impl Command for DrawCmd {
             // The output is only created, and what it held replaced, once the input has been read.
             let mut output = super::create_output(self.output)?;
             writer.write(&mut output, &graph)?;
+            output.flush()?;
             Ok(ExitCode::SUCCESS)
         }
     }
diff --git a/rdftk_cli/src/commands/representations.rs b/rdftk_cli/src/commands/representations.rs
index 5b42e16..23181ee 100644
--- a/rdftk_cli/src/commands/representations.rs
+++ b/rdftk_cli/src/commands/representations.rs
@@ -1,6 +1,7 @@
 use super::{Command, Representation};
 use clap::Args;
 use rdftk_core::error::Error;
+use std::io::Write;
 use std::process::ExitCode;
 
 // ------------------------------------------------------------------------------------------------
@@ -55,6 +56,7 @@ impl Command for ConvertCmd {
         // The output is only created, and what it held replaced, once the input has been read.
         let mut output = super::create_output(self.output)?;
         super::write_graph(&graph, &mut output, self.to)?;
+        output.flush()?;
         Ok(ExitCode::SUCCESS)
     }
 }
-- 
2.43.0


From e60609ed9cc998e0c30ba1ead8bb3ad441c8e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 61/66] fix: rdftk converts from data set representations

Every conversion from N-Quads or TriG panicked in read_graph, and none to them kept the names of
the graphs.
---
 rdftk_cli/src/commands/mod.rs             | 15 ++++++++++++++-
 rdftk_cli/src/commands/representations.rs | 22 ++++++++++++++++++----
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/rdftk_cli/src/commands/mod.rs b/rdftk_cli/src/commands/mod.rs
index 4035157..9210cf5 100644
--- a/rdftk_cli/src/commands/mod.rs
+++ b/rdftk_cli/src/commands/mod.rs
@@ -1,7 +1,7 @@
 use clap::{Subcommand, ValueEnum};
 use objio::{ObjectReader, ObjectWriter};
 use rdftk_core::{
-    error::Error,
+    error::{unknown_error_from, Error},
     model::{data_set::DataSet, graph::Graph},
 };
 use rdftk_io::{json, nq, nt, trig, turtle, xml};
@@ -125,6 +125,19 @@ pub(crate) fn read_dataset(
     Ok(graph)
 }
 
+///
+/// The one graph of a data set that has no other than the default graph.
+///
+pub(crate) fn only_default_graph(data_set: &DataSet) -> Result<Graph, Error> {
+    if data_set.graphs().any(|graph| graph.is_named()) {
+        Err(unknown_error_from(
+            "named graphs can only be written in a data set representation",
+        ))
+    } else {
+        Ok(data_set.default_graph().cloned().unwrap_or_default())
+    }
+}
+
 pub(crate) fn create_output(path: clio::OutputPath) -> Result<clio::Output, Error> {
     Ok(path.create().map_err(std::io::Error::from)?)
 }
diff --git a/rdftk_cli/src/commands/representations.rs b/rdftk_cli/src/commands/representations.rs
index 23181ee..ba0d5b3 100644
--- a/rdftk_cli/src/commands/representations.rs
+++ b/rdftk_cli/src/commands/representations.rs
@@ -52,11 +52,25 @@ pub(crate) struct ConvertCmd {
 
 impl Command for ConvertCmd {
     fn execute(mut self) -> Result<ExitCode, Error> {
-        let graph = super::read_graph(&mut self.input, self.from)?;
         // The output is only created, and what it held replaced, once the input has been read.
-        let mut output = super::create_output(self.output)?;
-        super::write_graph(&graph, &mut output, self.to)?;
-        output.flush()?;
+        if self.from.is_dataset_representation() {
+            let data_set = super::read_dataset(&mut self.input, self.from)?;
+            if self.to.is_dataset_representation() {
+                let mut output = super::create_output(self.output)?;
+                super::write_dataset(&data_set, &mut output, self.to)?;
+                output.flush()?;
+            } else {
+                let graph = super::only_default_graph(&data_set)?;
+                let mut output = super::create_output(self.output)?;
+                super::write_graph(&graph, &mut output, self.to)?;
+                output.flush()?;
+            }
+        } else {
+            let graph = super::read_graph(&mut self.input, self.from)?;
+            let mut output = super::create_output(self.output)?;
+            super::write_graph(&graph, &mut output, self.to)?;
+            output.flush()?;
+        }
         Ok(ExitCode::SUCCESS)
     }
 }
-- 
2.43.0


From 0784fb643f7208924e91eea4ea6a3a75b1a55aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:50 +0000
Subject: [PATCH 62/66] fix: the TriG writer writes the statements of the
 graphs

It wrote empty braces and reported success, and wrote the names of graphs without the brackets of
IRIs.
---
 rdftk_io/src/trig/writer.rs   | 109 ++++++++++++++++++++++++++++------
 rdftk_io/src/turtle/mod.rs    |   1 +
 rdftk_io/src/turtle/writer.rs |  33 +++++++---
 3 files changed, 116 insertions(+), 27 deletions(-)

diff --git a/rdftk_io/src/trig/writer.rs b/rdftk_io/src/trig/writer.rs
index 2d0dbea..3400dd7 100644
--- a/rdftk_io/src/trig/writer.rs
+++ b/rdftk_io/src/trig/writer.rs
@@ -1,9 +1,12 @@
-use crate::turtle::TurtleWriterOptions;
+use crate::turtle::{has_nested_statement, TurtleWriter, TurtleWriterOptions};
 use crate::{DataSetWriter, GraphWriter};
 use objio::{impl_has_options, HasOptions, ObjectWriter};
 use rdftk_core::error::Error;
 use rdftk_core::model::data_set::DataSet;
 use rdftk_core::model::graph::Graph;
+use rdftk_core::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
+use std::collections::HashSet;
+use std::io::Write;
 
 // ------------------------------------------------------------------------------------------------
 // Public Types
@@ -73,12 +76,12 @@ impl ObjectWriter<DataSet> for TrigWriter {
 
     fn write<W>(&self, w: &mut W, data_set: &DataSet) -> Result<(), Self::Error>
     where
-        W: std::io::Write,
+        W: Write,
     {
-        for graph in data_set.graphs() {
-            self.write(w, graph)?;
-        }
-        Ok(())
+        // The default graph comes first.
+        let mut graphs: Vec<&Graph> = data_set.graphs().collect();
+        graphs.sort_by_key(|graph| graph.name().map(ToString::to_string));
+        self.write_trig_doc(w, &graphs)
     }
 }
 
@@ -89,22 +92,92 @@ impl ObjectWriter<Graph> for TrigWriter {
 
     fn write<W>(&self, w: &mut W, graph: &Graph) -> Result<(), Self::Error>
     where
-        W: std::io::prelude::Write,
+        W: Write,
     {
-        if let Some(name) = graph.name() {
-            if !self.options().omit_graph_keyword() {
-                w.write_all(b"GRAPH ")?;
-            }
-            w.write_all(name.to_string().as_bytes())?;
-            w.write_all(b" ")?;
-        }
-        w.write_all(b"{\n")?;
+        self.write_trig_doc(w, &[graph])
+    }
+}
 
-        // TODO: call the TurtleWriter
+impl GraphWriter for TrigWriter {}
 
-        w.write_all(b"}\n")?;
+// ------------------------------------------------------------------------------------------------
+
+impl TrigWriter {
+    ///
+    /// ```text
+    /// [1g]  trigDoc       ::= (directive | block)*
+    /// [2g]  block         ::= triplesOrGraph | wrappedGraph | triples2 | "GRAPH" labelOrSubject wrappedGraph
+    /// [5g]  wrappedGraph  ::= '{' triplesBlock? '}'
+    /// ```
+    ///
+    fn write_trig_doc<W>(&self, w: &mut W, graphs: &[&Graph]) -> Result<(), Error>
+    where
+        W: Write,
+    {
+        let turtle = TurtleWriter::default().with_options(self.options().turtle.clone());
+        let shared = shared_blanks(graphs);
+        turtle.write_base_iri(w)?;
+        for graph in graphs {
+            turtle.write_prefixes(w, graph)?;
+            if let Some(name) = graph.name() {
+                if !self.options().omit_graph_keyword() {
+                    write!(w, "GRAPH ")?;
+                }
+                if let Some(iri) = name.as_iri() {
+                    write!(w, "<{}> ", AsRef::<str>::as_ref(iri))?;
+                } else {
+                    write!(w, "{name} ")?;
+                }
+            }
+            writeln!(w, "{{")?;
+            if graph.statements().any(has_nested_statement) {
+                turtle.write_statements(w, &graph.simplify()?, &shared)?;
+            } else {
+                turtle.write_statements(w, graph, &shared)?;
+            }
+            writeln!(w, "}}")?;
+        }
         Ok(())
     }
 }
 
-impl GraphWriter for TrigWriter {}
+/// Returns the blank nodes that are names of graphs or are found in more than one graph.
+fn shared_blanks(graphs: &[&Graph]) -> HashSet<BlankNode> {
+    fn add_subject(subject: &SubjectNode, blanks: &mut HashSet<BlankNode>) {
+        match subject {
+            SubjectNode::Blank(blank) => {
+                blanks.insert(blank.clone());
+            }
+            SubjectNode::Statement(statement) => add_statement(statement, blanks),
+            _ => {}
+        }
+    }
+    fn add_object(object: &ObjectNode, blanks: &mut HashSet<BlankNode>) {
+        match object {
+            ObjectNode::Blank(blank) => {
+                blanks.insert(blank.clone());
+            }
+            ObjectNode::Statement(statement) => add_statement(statement, blanks),
+            ObjectNode::Collection(members) => members
+                .iter()
+                .for_each(|member| add_object(member, blanks)),
+            _ => {}
+        }
+    }
+    fn add_statement(statement: &Statement, blanks: &mut HashSet<BlankNode>) {
+        add_subject(statement.subject(), blanks);
+        add_object(statement.object(), blanks);
+    }
+    let mut seen: HashSet<BlankNode> = Default::default();
+    let mut shared: HashSet<BlankNode> = Default::default();
+    for graph in graphs {
+        let mut blanks: HashSet<BlankNode> = Default::default();
+        graph
+            .statements()
+            .for_each(|statement| add_statement(statement, &mut blanks));
+        shared.extend(blanks.iter().filter(|blank| seen.contains(blank)).cloned());
+        seen.extend(blanks);
+        shared.extend(graph.name().and_then(|name| name.as_blank()).cloned());
+    }
+    shared
+}
diff --git a/rdftk_io/src/turtle/mod.rs b/rdftk_io/src/turtle/mod.rs
index e88fb26..f25114f 100644
--- a/rdftk_io/src/turtle/mod.rs
+++ b/rdftk_io/src/turtle/mod.rs
@@ -64,4 +64,5 @@ mod reader;
 pub use reader::TurtleReader;
 
 mod writer;
+pub(crate) use writer::has_nested_statement;
 pub use writer::{TurtleWriter, TurtleWriterOptions};
diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 23fd4ee..4397f37 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -457,12 +457,32 @@ impl TurtleWriter {
     ///
     fn write_turtle_doc<W: Write>(&self, w: &mut W, graph: &Graph) -> Result<()> {
         trace!("write_turtle_doc");
+        // [3] directives
+        self.write_base_iri(w)?;
+        self.write_prefixes(w, graph)?;
+
+        // [2] ... triples
+        self.write_statements(w, graph, &HashSet::default())
+    }
+
+    ///
+    /// Write the triples of `graph`, which has no nested statements, after the directives. The blank
+    /// nodes in `shared` are used outside of these triples as well and therefore keep their names.
+    ///
+    pub(crate) fn write_statements<W: Write>(
+        &self,
+        w: &mut W,
+        graph: &Graph,
+        shared: &HashSet<BlankNode>,
+    ) -> Result<()> {
         {
             let mut context_mut = self.context.borrow_mut();
             context_mut.indenter =
                 Indenter::default().with_default_indent_width(self.options.indent_width());
             context_mut.nested_blanks = if self.options.nest_blank_nodes() {
-                nestable_blanks(graph)
+                let mut nestable = nestable_blanks(graph);
+                nestable.retain(|blank| !shared.contains(blank));
+                nestable
             } else {
                 HashSet::default()
             };
@@ -479,11 +499,6 @@ impl TurtleWriter {
                 .collect();
         }
 
-        // [3] directives
-        self.write_base_iri(w)?;
-        self.write_prefixes(w, graph)?;
-
-        // [2] ... triples
         let flags = WriterStatusFlags::default();
         self.write_triples(w, graph, flags)?;
         Ok(())
@@ -495,7 +510,7 @@ impl TurtleWriter {
     /// [5s]  sparqlBase  ::= "BASE" IRIREF
     /// ```
     ///
-    fn write_base_iri<W: Write>(&self, w: &mut W) -> Result<()> {
+    pub(crate) fn write_base_iri<W: Write>(&self, w: &mut W) -> Result<()> {
         trace!("write_base_iri");
         if let Some(base) = &self.options.id_base() {
             let (decl, eos) =
@@ -522,7 +537,7 @@ impl TurtleWriter {
     /// [6s]  sparqlPrefix  ::= "PREFIX" PNAME_NS IRIREF
     /// ```
     ///
-    fn write_prefixes<W: Write>(&self, w: &mut W, graph: &Graph) -> Result<()> {
+    pub(crate) fn write_prefixes<W: Write>(&self, w: &mut W, graph: &Graph) -> Result<()> {
         trace!("write_prefixes");
         let mappings = graph.prefix_mappings();
         if !mappings.is_empty() {
@@ -1018,7 +1033,7 @@ fn is_resolved_by_appending(base: &str, rest: &str) -> bool {
 }
 
 /// Returns `true` if there is a statement in `statement`, at any depth.
-fn has_nested_statement(statement: &Statement) -> bool {
+pub(crate) fn has_nested_statement(statement: &Statement) -> bool {
     fn in_object(object: &ObjectNode) -> bool {
         match object {
             ObjectNode::Statement(_) => true,
-- 
2.43.0


From 368295c42a43324f2c18c71c8d6441e847cf35bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:24 +0000
Subject: [PATCH 63/66] fix: the RDF/XML reader reads a document that is one
 node element

---
 rdftk_io/src/xml/reader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index bf87999..4090c13 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -175,11 +175,13 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
             }) => {
                 trace_event!("parse_document" => event);
                 let attributes = parse_attributes(attributes)?;
+                let scope = Scope::default();
                 if rdf_element.matches(name) {
-                    let scope = Scope::default().within(&attributes);
+                    let scope = scope.within(&attributes);
                     parse_node_elements(event_reader, &scope, &mut graph)?;
                 } else {
-                    error_event!(state => "parse_document", "expecting rdf:RDF");
+                    // SPEC: §2.6 Completing the RDF/XML, rdf:RDF may be omitted around a single node
+                    parse_subject_element(event_reader, name, &attributes, &scope, &mut graph)?;
                 }
             }
             Ok(_) => {
-- 
2.43.0


From a8b93b475bda319388c4250c9bae01a00fa29552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:24 +0000
Subject: [PATCH 64/66] fix: with_indent_width takes no width the Turtle writer
 cannot write

---
 rdftk_io/src/turtle/writer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 4397f37..0c98e3c 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -196,11 +196,13 @@ impl TurtleWriterOptions {
         }
     }
 
+    ///
+    /// Set the indentation width, see [`Self::set_indent_width`].
+    ///
     pub fn with_indent_width(self, indent_width: usize) -> Self {
-        Self {
-            indent_width,
-            ..self
-        }
+        let mut self_mut = self;
+        self_mut.set_indent_width(indent_width);
+        self_mut
     }
 
     pub fn with_predicate_padding(self, predicate_padding: bool) -> Self {
-- 
2.43.0


From ca7c6b48862a72883dc2f4116208a8714fb22431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:10 +0000
Subject: [PATCH 65/66] fix: the RDF/XML reader resolves relative IRI
 references against xml:base

---
 rdftk_io/src/xml/reader.rs | 47 +++++++++++++++++++++++++-------------
 rdftk_iri/src/iri.rs       | 24 +++++++++++++++++++
 2 files changed, 55 insertions(+), 16 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 4090c13..58021ea 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -8,7 +8,7 @@ use rdftk_core::error::{invalid_state_error, Error};
 use rdftk_core::model::graph::Graph;
 use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
 use rdftk_core::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
-use rdftk_iri::Iri;
+use rdftk_iri::{error::UrlError, Iri};
 use rdftk_names::rdf;
 use std::io::Read;
 use std::str::FromStr;
@@ -174,8 +174,8 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
                 attributes,
             }) => {
                 trace_event!("parse_document" => event);
-                let attributes = parse_attributes(attributes)?;
                 let scope = Scope::default();
+                let attributes = parse_attributes(attributes, &scope)?;
                 if rdf_element.matches(name) {
                     let scope = scope.within(&attributes);
                     parse_node_elements(event_reader, &scope, &mut graph)?;
@@ -212,7 +212,7 @@ fn parse_node_elements<R: Read>(
                 attributes,
             }) => {
                 trace_event!("parse_node_elements" => event);
-                let attributes = parse_attributes(attributes)?;
+                let attributes = parse_attributes(attributes, scope)?;
                 subjects.push(parse_subject_element(
                     event_reader,
                     name,
@@ -288,15 +288,19 @@ fn name_to_iri(name: &OwnedName) -> Result<Iri, Error> {
 }
 
 #[inline]
-fn value_to_iri(name: &str) -> Result<Iri, Error> {
-    Ok(Iri::from_str(name)?)
+fn value_to_iri(value: &str, xml_base: &Option<Iri>) -> Result<Iri, Error> {
+    // SPEC: §5.3 Resolving IRIs
+    Ok(match (Iri::from_str(value), xml_base) {
+        (Err(UrlError::RelativeUrlWithoutBase), Some(base)) => base.resolve(value)?,
+        (iri, _) => iri?,
+    })
 }
 
 fn id_to_iri(id: &str, scope: &Scope) -> Result<Iri, Error> {
     let Some(xml_base) = &scope.xml_base else {
         error_event!(state => "id_to_iri", "rdf:ID without xml:base");
     };
-    value_to_iri(&format!("{:#}#{id}", xml_base.with_no_fragment()))
+    Ok(Iri::from_str(&format!("{:#}#{id}", xml_base.with_no_fragment()))?)
 }
 
 ///
@@ -332,7 +336,7 @@ fn parse_predicate_attributes(
         );
         let predicate = name_to_iri(&attribute.name)?;
         let object: ObjectNode = if &predicate == rdf::a_type() {
-            value_to_iri(&attribute.value)?.into()
+            value_to_iri(&attribute.value, &scope.xml_base)?.into()
         } else {
             match &scope.language {
                 Some(language) => Literal::with_language(&attribute.value, language.clone()),
@@ -362,7 +366,7 @@ fn parse_predicate_element<R: Read>(
                 attributes,
             }) => {
                 trace_event!("parse_predicate_element" => event);
-                let attributes = parse_attributes(attributes)?;
+                let attributes = parse_attributes(attributes, scope)?;
                 let scope = scope.within(&attributes);
                 // SPEC: §2.17 Reifying Statements: rdf:ID
                 let id = match attributes.id {
@@ -527,7 +531,7 @@ fn parse_object_element<R: Read>(
                 if node.is_some() {
                     error_event!(state => "parse_object_element", "found more than one node element");
                 }
-                let attributes = parse_attributes(attributes)?;
+                let attributes = parse_attributes(attributes, scope)?;
                 // set outer loop value
                 node = Some(parse_subject_element(
                     event_reader,
@@ -644,7 +648,10 @@ fn parse_xml_literal_element<R: Read>(
     }
 }
 
-fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Error> {
+fn parse_attributes<'a>(
+    attributes: &'a [OwnedAttribute],
+    scope: &Scope,
+) -> Result<Attributes<'a>, Error> {
     let mut response = Attributes {
         subject_type: None,
         id: None,
@@ -656,11 +663,19 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
         inner: Default::default(),
     };
 
+    // the base of an element is that of its attributes as well, wherever it stands among them.
+    for attribute in attributes {
+        if attribute.name.namespace == Some(XML_NAMESPACE.to_string())
+            && attribute.name.local_name == ATTRIBUTE_XML_BASE
+        {
+            response.uri_base = Some(value_to_iri(&attribute.value, &scope.xml_base)?);
+        }
+    }
+    let xml_base = response.uri_base.clone().or(scope.xml_base.clone());
+
     for attribute in attributes {
         if attribute.name.namespace == Some(XML_NAMESPACE.to_string()) {
-            if attribute.name.local_name == ATTRIBUTE_XML_BASE {
-                response.uri_base = Some(value_to_iri(&attribute.value)?);
-            } else if attribute.name.local_name == ATTRIBUTE_XML_LANG {
+            if attribute.name.local_name == ATTRIBUTE_XML_LANG {
                 // the empty language ends the one around this element.
                 response.language = Some(if attribute.value.is_empty() {
                     None
@@ -671,7 +686,7 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
         } else if attribute.name.namespace == Some(rdf::namespace_str().to_string()) {
             if attribute.name.local_name == ATTRIBUTE_ABOUT {
                 response.subject_type =
-                    Some(SubjectType::Resource(value_to_iri(&attribute.value)?));
+                    Some(SubjectType::Resource(value_to_iri(&attribute.value, &xml_base)?));
             } else if attribute.name.local_name == ATTRIBUTE_NODE_ID {
                 response.subject_type = Some(SubjectType::BlankNamed(attribute.value.to_string()));
             } else if attribute.name.local_name == ATTRIBUTE_ID {
@@ -682,9 +697,9 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
                         Some(SubjectType::RelativeResource(attribute.value.to_string()));
                 }
             } else if attribute.name.local_name == ATTRIBUTE_DATATYPE {
-                response.data_type = Some(value_to_iri(&attribute.value)?);
+                response.data_type = Some(value_to_iri(&attribute.value, &xml_base)?);
             } else if attribute.name.local_name == ATTRIBUTE_RESOURCE {
-                response.resource = Some(value_to_iri(&attribute.value)?);
+                response.resource = Some(value_to_iri(&attribute.value, &xml_base)?);
             } else if attribute.name.local_name == ATTRIBUTE_PARSE_TYPE {
                 if attribute.value == PARSE_TYPE_LITERAL {
                     response.parse_type = Some(ParseType::XmlLiteral);
diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index 4c87c39..d6e1c16 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -242,6 +242,30 @@ impl Iri {
         new_self
     }
 
+    ///
+    /// Returns the IRI that `reference`, which may be relative, denotes with this IRI as its base.
+    ///
+    /// Example
+    ///
+    /// ```
+    /// use rdftk_iri::Iri;
+    /// use std::str::FromStr;
+    ///
+    /// let base = Iri::from_str("https://example.org/path/doc#frag").unwrap();
+    ///
+    /// assert_eq!(
+    ///     base.resolve("other#name").unwrap().to_string(),
+    ///     "<https://example.org/path/other#name>",
+    /// );
+    /// ```
+    ///
+    pub fn resolve<S>(&self, reference: S) -> Result<Self, url::ParseError>
+    where
+        S: AsRef<str>,
+    {
+        Ok(Self(self.0.join(reference.as_ref())?))
+    }
+
     ///
     /// Returns `true` if this IRI may be used as a valid namespace. A valid namespace follows the
     /// format:
-- 
2.43.0


From 08c2e612170eb4e7158908b6b3e95ec47bc3dacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:22 +0000
Subject: [PATCH 66/66] fix: a namespace prefix does not end with a dot, which
 no document could declare

---
 rdftk_iri/src/pname.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdftk_iri/src/pname.rs b/rdftk_iri/src/pname.rs
index 6ed3553..833193c 100644
--- a/rdftk_iri/src/pname.rs
+++ b/rdftk_iri/src/pname.rs
@@ -252,6 +252,8 @@ impl FromStr for Namespace {
                 Err(NameParseError::TooManySeparators(s.to_string()))
             } else if pn_prefix.is_empty() {
                 Ok(Self(s.to_string()))
+            } else if pn_prefix.ends_with('.') {
+                Err(NameParseError::InvalidCharacter(s.to_string()))
             } else {
                 let mut chars = pn_prefix.chars();
                 if is_pn_chars_base(chars.next().unwrap()) && chars.all(is_pn_prefix_local_rest) {
-- 
2.43.0

