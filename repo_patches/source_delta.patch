From 1abc4d7e1d131e430e31201b0734341426c41978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 01/31] fix: interval of a repeated group {min,max} is scaled
 by the group cardinality

---
 rbe/src/rbe.rs | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/rbe/src/rbe.rs b/rbe/src/rbe.rs
index ede88bf..7cf62c5 100644
--- a/rbe/src/rbe.rs
+++ b/rbe/src/rbe.rs
@@ -170,25 +170,18 @@ where
                 }
             },
             Rbe::Repeat { value, card } => {
-                if self.no_symbols_in_bag(bag) {
-                    if card.nullable() || value.is_nullable() {
-                        Interval::zero_any()
-                    } else {
-                        Interval::zero_zero()
-                    }
-                } else {
-                    let inner = value.interval(bag);
-                    if inner.is_empty() {
-                        inner
-                    } else {
-                        let card_interval = Interval::new(Max::IntMax(card.min.value), card.max.clone());
-                        let intersection = inner.intersection(&card_interval);
-                        if intersection.is_empty() {
-                            Interval::fail()
-                        } else {
-                            Interval::new(Max::IntMax(1), Max::IntMax(1))
-                        }
-                    }
+                // `bag` must be the sum of j iterations of `value` with j in [inner.n, inner.m], and k repetitions
+                // of the group take between k * card.min and k * card.max iterations.
+                let inner = value.interval(bag);
+                match (&inner.n, &inner.m) {
+                    (Max::IntMax(n), m) if !inner.is_empty() => {
+                        let upper = match m {
+                            Max::Unbounded => Max::Unbounded,
+                            Max::IntMax(m) => Max::IntMax(card.min.value).div_down(m),
+                        };
+                        Interval::new(card.max.div_up(n), upper)
+                    },
+                    _ => Interval::fail(),
                 }
             },
         }
-- 
2.43.0


From 00120d88c91b8277e375feac09f6d195b0f68da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 02/31] fix: derivative of {0,0} groups and of groups skipped
 by extra symbols

---
 rbe/src/rbe.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/rbe/src/rbe.rs b/rbe/src/rbe.rs
index 7cf62c5..b5c88c4 100644
--- a/rbe/src/rbe.rs
+++ b/rbe/src/rbe.rs
@@ -394,15 +394,11 @@ where
                 let d = value.deriv(x, n, open, controlled);
                 Self::mk_and(&d, &Rbe::Star { value: value.clone() })
             },
-            Rbe::Repeat { ref value, ref card } if card.is_0_0() => {
-                let d = value.deriv(x, n, open, controlled);
-                if d.is_nullable() {
-                    Rbe::Fail {
-                        error: DerivError::CardinalityZeroZeroDeriv { symbol: x.clone() },
-                    }
-                } else {
-                    Rbe::Empty
-                }
+            // Extra symbol (not controlled): the Repeat stays in its current state, no iteration is consumed.
+            Rbe::Repeat { .. } if open && !controlled.contains(x) => self.clone(),
+            // Zero repetitions only match the empty bag, so no symbol can be consumed.
+            Rbe::Repeat { ref card, .. } if card.is_0_0() => Rbe::Fail {
+                error: DerivError::CardinalityZeroZeroDeriv { symbol: x.clone() },
             },
             Rbe::Repeat { ref value, ref card } => {
                 let d = value.deriv(x, n, open, controlled);
-- 
2.43.0


From b289509b4fef36abd01bf93977b110504697efdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 03/31] fix: a literal focus node has no values for a property
 path instead of being skipped

---
 rudof_rdf/src/rdf_core/neighs_rdf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rudof_rdf/src/rdf_core/neighs_rdf.rs b/rudof_rdf/src/rdf_core/neighs_rdf.rs
index ec19298..de1ff74 100644
--- a/rudof_rdf/src/rdf_core/neighs_rdf.rs
+++ b/rudof_rdf/src/rdf_core/neighs_rdf.rs
@@ -325,6 +325,10 @@ pub trait NeighsRDF: Rdf {
     fn objects_for_shacl_path(&self, subject: &Self::Term, path: &SHACLPath) -> Result<HashSet<Self::Term>, RDFError> {
         match path {
             SHACLPath::Predicate { pred } => {
+                // A term that cannot be the subject of a triple (e.g. a literal) has no values
+                if Self::term_as_subject(subject).is_err() {
+                    return Ok(HashSet::new());
+                }
                 let pred: Self::IRI = pred.clone().into();
                 self.objects_for(subject, &pred)
             },
-- 
2.43.0


From 07496724a79852f7d9b3b5a2fd2f2e2c1609e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 04/31] fix: inverse of a complex property path is evaluated
 instead of panicking

---
 rudof_rdf/src/rdf_core/neighs_rdf.rs | 31 ++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/neighs_rdf.rs b/rudof_rdf/src/rdf_core/neighs_rdf.rs
index de1ff74..a20faeb 100644
--- a/rudof_rdf/src/rdf_core/neighs_rdf.rs
+++ b/rudof_rdf/src/rdf_core/neighs_rdf.rs
@@ -353,10 +353,33 @@ pub trait NeighsRDF: Rdf {
                     Ok(all_objects)
                 },
             },
-            SHACLPath::Inverse { path } => {
-                let pred: Self::IRI = path.pred().unwrap().clone().into();
-                let objects = self.subjects_for(&pred, subject)?;
-                Ok(objects)
+            SHACLPath::Inverse { path } => match path.as_ref() {
+                SHACLPath::Predicate { pred } => {
+                    let pred: Self::IRI = pred.clone().into();
+                    self.subjects_for(&pred, subject)
+                },
+                // The inverse of a complex path is pushed down to its predicates
+                SHACLPath::Alternative { paths } => {
+                    let paths = paths.iter().cloned().map(SHACLPath::inverse).collect();
+                    self.objects_for_shacl_path(subject, &SHACLPath::alternative(paths))
+                },
+                SHACLPath::Sequence { paths } => {
+                    let paths = paths.iter().rev().cloned().map(SHACLPath::inverse).collect();
+                    self.objects_for_shacl_path(subject, &SHACLPath::sequence(paths))
+                },
+                SHACLPath::Inverse { path } => self.objects_for_shacl_path(subject, path),
+                SHACLPath::ZeroOrMore { path } => {
+                    let path = SHACLPath::inverse(path.as_ref().clone());
+                    self.objects_for_shacl_path(subject, &SHACLPath::zero_or_more(path))
+                },
+                SHACLPath::OneOrMore { path } => {
+                    let path = SHACLPath::inverse(path.as_ref().clone());
+                    self.objects_for_shacl_path(subject, &SHACLPath::one_or_more(path))
+                },
+                SHACLPath::ZeroOrOne { path } => {
+                    let path = SHACLPath::inverse(path.as_ref().clone());
+                    self.objects_for_shacl_path(subject, &SHACLPath::zero_or_one(path))
+                },
             },
             SHACLPath::ZeroOrMore { path } => {
                 let mut all_objects = HashSet::new();
-- 
2.43.0


From 828d3b8e7a864549944f450cfafb5f520646a861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:05 +0000
Subject: [PATCH 05/31] fix: sh:minLength and sh:maxLength count characters,
 not bytes, in the native engine

---
 .../src/validator/constraints/core/string_based/max_length.rs | 4 ++--
 .../src/validator/constraints/core/string_based/min_length.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/shacl/src/validator/constraints/core/string_based/max_length.rs b/shacl/src/validator/constraints/core/string_based/max_length.rs
index 07ae4eb..7108ed3 100644
--- a/shacl/src/validator/constraints/core/string_based/max_length.rs
+++ b/shacl/src/validator/constraints/core/string_based/max_length.rs
@@ -35,10 +35,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MaxLength {
                 return true;
             }
             if let Ok(iri) = S::term_as_iri(vn) {
-                return iri.as_str().len() > self.max_length() as usize;
+                return iri.as_str().chars().count() > self.max_length() as usize;
             }
             if let Ok(lit) = S::term_as_literal(vn) {
-                return lit.lexical_form().len() > self.max_length() as usize;
+                return lit.lexical_form().chars().count() > self.max_length() as usize;
             }
             true
         };
diff --git a/shacl/src/validator/constraints/core/string_based/min_length.rs b/shacl/src/validator/constraints/core/string_based/min_length.rs
index b1e6dec..646577c 100644
--- a/shacl/src/validator/constraints/core/string_based/min_length.rs
+++ b/shacl/src/validator/constraints/core/string_based/min_length.rs
@@ -35,10 +35,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for MinLength {
                 return true;
             }
             if let Ok(iri) = S::term_as_iri(vn) {
-                return iri.as_str().len() < self.min_length() as usize;
+                return iri.as_str().chars().count() < self.min_length() as usize;
             }
             if let Ok(lit) = S::term_as_literal(vn) {
-                return lit.lexical_form().len() < self.min_length() as usize;
+                return lit.lexical_form().chars().count() < self.min_length() as usize;
             }
             true
         };
-- 
2.43.0


From e75447c4effc5ee0d6f0d2414e8de53761fe64d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:35 +0000
Subject: [PATCH 06/31] fix: language tags of literals built from schemas are
 lower-cased like those of the data

---
 rudof_rdf/src/rdf_core/term/literal/literal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index edbdad5..b099925 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -1112,7 +1112,10 @@ impl From<ConcreteLiteral> for oxrdf::Literal {
 
         match value {
             ConcreteLiteral::StringLiteral { lexical_form, lang } => match lang {
-                Some(l) => oxrdf::Literal::new_language_tagged_literal_unchecked(lexical_form, l.to_string()),
+                // oxrdf keeps language tags in lower case (they are case-insensitive)
+                Some(l) => {
+                    oxrdf::Literal::new_language_tagged_literal_unchecked(lexical_form, l.as_str().to_ascii_lowercase())
+                },
                 None => lexical_form.into(),
             },
 
-- 
2.43.0


From e1d391c22bc900b5a1273e2bdbeff2c4b75d60f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 07/31] fix: sh:deactivated is honoured on property shapes

---
 shacl/src/ast/property_shape.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shacl/src/ast/property_shape.rs b/shacl/src/ast/property_shape.rs
index 22a08ba..73fba85 100644
--- a/shacl/src/ast/property_shape.rs
+++ b/shacl/src/ast/property_shape.rs
@@ -158,6 +158,10 @@ impl ASTPropertyShape {
 
     pub fn is_deactivated(&self) -> bool {
         self.deactivated
+            || self
+                .components
+                .iter()
+                .any(|component| matches!(component, ASTComponent::Deactivated(true)))
     }
 
     pub fn severity(&self) -> Option<&Severity> {
-- 
2.43.0


From cf424455f927c9f276d10ad1dc1f38ea9ed214f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 08/31] fix: instances of transitive subclasses are SHACL
 instances of a class in the native engine

---
 .../validator/constraints/core/value/class.rs | 33 ++++++++-----------
 shacl/src/validator/engine/native.rs          |  3 +-
 shacl/src/validator/index/class.rs            | 13 +++++---
 3 files changed, 24 insertions(+), 25 deletions(-)

diff --git a/shacl/src/validator/constraints/core/value/class.rs b/shacl/src/validator/constraints/core/value/class.rs
index 7b90934..baca8f7 100644
--- a/shacl/src/validator/constraints/core/value/class.rs
+++ b/shacl/src/validator/constraints/core/value/class.rs
@@ -41,17 +41,7 @@ impl<S: NeighsRDF + 'static> NativeValidator<S> for Class {
             }
             let term = S::object_as_term(self.class_rule());
 
-            !store
-                .objects_for(vn, &RdfVocab::rdf_type().into())
-                .unwrap_or_default()
-                .iter()
-                .any(|ctype| {
-                    ctype == &term
-                        || store
-                            .objects_for(ctype, &RdfsVocab::rdfs_subclass_of_str().into())
-                            .unwrap_or_default()
-                            .contains(&term)
-                })
+            !is_instance::<S>(store, vn, &term)
         };
 
         validate_with(
@@ -94,7 +84,7 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
                 let conforms = if vn.is_literal() {
                     false
                 } else if vn.is_blank_node() {
-                    blank_is_instance::<S>(store, vn, &class_term)?
+                    is_instance::<S>(store, vn, &class_term)
                 } else {
                     let vn_sparql = term_as_sparql::<S>(vn).unwrap_or_default();
                     let query = formatdoc! {"
@@ -121,14 +111,17 @@ impl<S: QueryRDF + NeighsRDF + Debug + 'static> BasicSparqlValidator<S> for Clas
     }
 }
 
-#[cfg(feature = "sparql")]
-fn blank_is_instance<S: NeighsRDF>(store: &S, vn: &S::Term, class_term: &S::Term) -> Result<bool, ValidationError> {
-    let types = store.objects_for(vn, &RdfVocab::rdf_type().into()).unwrap_or_default();
-    Ok(types.iter().any(|ctype| {
-        ctype == class_term
-            || store
-                .objects_for(ctype, &RdfsVocab::rdfs_subclass_of_str().into())
+/// SHACL instances of a class are the nodes with a type that is a (transitive) subclass of it
+fn is_instance<S: NeighsRDF>(store: &S, vn: &S::Term, class_term: &S::Term) -> bool {
+    let subclass_of = SHACLPath::iri(RdfsVocab::rdfs_subclass_of_str());
+    store
+        .objects_for(vn, &RdfVocab::rdf_type().into())
+        .unwrap_or_default()
+        .iter()
+        .any(|ctype| {
+            store
+                .objects_for_shacl_path(ctype, &SHACLPath::zero_or_more(subclass_of.clone()))
                 .unwrap_or_default()
                 .contains(class_term)
-    }))
+        })
 }
diff --git a/shacl/src/validator/engine/native.rs b/shacl/src/validator/engine/native.rs
index 4d428d0..374050f 100644
--- a/shacl/src/validator/engine/native.rs
+++ b/shacl/src/validator/engine/native.rs
@@ -56,7 +56,8 @@ impl NativeEngine {
         class: &Object,
     ) -> Result<FocusNodes<RDF>, ValidationError> {
         if let Some(index) = &self.class_index {
-            let focus_nodes = index.instances_of(class).map(|obj| -> RDF::Term { obj.clone().into() });
+            let instances = index.instances_of_with_subclasses(class);
+            let focus_nodes = instances.into_iter().map(|obj| -> RDF::Term { obj.clone().into() });
             return Ok(FocusNodes::from_iter(focus_nodes));
         }
 
diff --git a/shacl/src/validator/index/class.rs b/shacl/src/validator/index/class.rs
index 5ad5cd2..68b2940 100644
--- a/shacl/src/validator/index/class.rs
+++ b/shacl/src/validator/index/class.rs
@@ -68,13 +68,18 @@ impl ClassIndex {
         self.subclass_map.get(class).into_iter().flat_map(|set| set.iter())
     }
 
-    /// Returns instances of the class and instances of all its direct subclasses.
+    /// Returns instances of the class and instances of all its (transitive) subclasses.
     pub fn instances_of_with_subclasses(&self, class: &Object) -> HashSet<&Object> {
         let mut result: HashSet<_> = self.instances_of(class).collect();
+        let mut visited = HashSet::from([class]);
+        let mut pending = vec![class];
 
-        for subclass in self.subclasses_of(class) {
-            for instance in self.instances_of(subclass) {
-                result.insert(instance);
+        while let Some(current) = pending.pop() {
+            for subclass in self.subclasses_of(current) {
+                if visited.insert(subclass) {
+                    result.extend(self.instances_of(subclass));
+                    pending.push(subclass);
+                }
             }
         }
 
-- 
2.43.0


From afba77fa660a5e92d15f8477a6980d779be8ccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 09/31] fix: property pair constraints on literal focus nodes
 neither abort the validation nor panic nor are skipped

---
 .../core/property_pair/disjoint.rs            |  5 ++++-
 .../constraints/core/property_pair/equals.rs  | 19 +++++++++----------
 .../core/property_pair/less_than.rs           |  5 ++++-
 .../core/property_pair/less_than_or_equals.rs |  5 ++++-
 4 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/shacl/src/validator/constraints/core/property_pair/disjoint.rs b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
index 966e841..81f8af5 100644
--- a/shacl/src/validator/constraints/core/property_pair/disjoint.rs
+++ b/shacl/src/validator/constraints/core/property_pair/disjoint.rs
@@ -31,7 +31,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Disjoint {
         _: &IRSchema,
     ) -> Result<Vec<ValidationResult>, ValidationError> {
         let check_fn = |f: &S::Term, vn: &S::Term| {
-            let subject = S::term_as_subject(f).unwrap();
+            // A focus node that cannot be a subject (e.g. a literal) has no values for the property
+            let Ok(subject) = S::term_as_subject(f) else {
+                return false;
+            };
             let iri: S::IRI = self.iri().clone().into();
             let triples_to_compare = match store.triples_with_subject_predicate(&subject, &iri) {
                 Ok(iter) => iter,
diff --git a/shacl/src/validator/constraints/core/property_pair/equals.rs b/shacl/src/validator/constraints/core/property_pair/equals.rs
index f60ad68..fd014dc 100644
--- a/shacl/src/validator/constraints/core/property_pair/equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/equals.rs
@@ -32,18 +32,17 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for Equals {
         let mut results = Vec::new();
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = match S::term_as_subject(fnode) {
-                Ok(s) => s,
-                Err(_) => continue,
-            };
-
             let iri: S::IRI = self.iri().clone().into();
 
-            let prop_values = store
-                .triples_with_subject_predicate(&subject, &iri)
-                .map_err(ValidationError::new_graph_error::<S>)?
-                .map(|t| t.obj().clone())
-                .collect::<HashSet<_>>();
+            // A focus node that cannot be a subject (e.g. a literal) has no values for the property
+            let prop_values = match S::term_as_subject(fnode) {
+                Ok(subject) => store
+                    .triples_with_subject_predicate(&subject, &iri)
+                    .map_err(ValidationError::new_graph_error::<S>)?
+                    .map(|t| t.obj().clone())
+                    .collect::<HashSet<_>>(),
+                Err(_) => HashSet::new(),
+            };
 
             let nodes_set = nodes.iter().collect::<HashSet<_>>();
 
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than.rs b/shacl/src/validator/constraints/core/property_pair/less_than.rs
index 27f7a15..29cdab9 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than.rs
@@ -32,7 +32,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThan {
         let component = Object::Iri(component.into());
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = S::term_as_subject(fnode)?;
+            // A focus node that cannot be a subject (e.g. a literal) has no values for the property
+            let Ok(subject) = S::term_as_subject(fnode) else {
+                continue;
+            };
             let iri: S::IRI = self.iri().clone().into();
             let fnode_obj = S::term_as_object(fnode)?;
 
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
index 91c9393..90ac900 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
@@ -32,7 +32,10 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThanOrEquals {
         let component = Object::iri(component.into());
 
         for (fnode, nodes) in value_nodes.iter() {
-            let subject = S::term_as_subject(fnode)?;
+            // A focus node that cannot be a subject (e.g. a literal) has no values for the property
+            let Ok(subject) = S::term_as_subject(fnode) else {
+                continue;
+            };
             let iri: S::IRI = self.iri().clone().into();
             let fnode_obj = S::term_as_object(fnode)?;
 
-- 
2.43.0


From c6a5c2fc2950c75025f867f1805eb962df4b3b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:58 +0000
Subject: [PATCH 10/31] fix: results of property shapes nested in property
 shapes are cached under the focus node they were reached from

---
 shacl/src/validator/engine/validate.rs | 55 ++++++++++++++------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/shacl/src/validator/engine/validate.rs b/shacl/src/validator/engine/validate.rs
index d40124e..51c620e 100644
--- a/shacl/src/validator/engine/validate.rs
+++ b/shacl/src/validator/engine/validate.rs
@@ -108,35 +108,32 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
         // unique (value-node, shape) pair is only truly validated once; subsequent
         // invocations for the same pair return the cached results, correctly producing
         // one violation entry per path that led to the offending node.
-        let mut property_shapes_validation_results = Vec::new();
+        //
+        // The focus node of a nested result is the value node, so the focus node of this
+        // shape it was reached from is kept next to it for the cache.
+        let mut nested_validation_results = Vec::new();
         for ps in self.property_shapes().iter() {
             let shape = shapes_graph.get_shape_from_idx_e(ps)?;
-            for (_, vn) in value_nodes.iter() {
+            for (fnode, vn) in value_nodes.iter() {
                 let results = shape.validate(store, runner, Some(vn), Some(self), shapes_graph)?;
-                property_shapes_validation_results.extend(results);
+                nested_validation_results.push((fnode.clone(), results));
             }
         }
 
-        let reification_results = if let Some(reifier_info) = self.reifier_info() {
-            validate_reifiers(
-                self,
-                store,
-                runner,
-                source_shape,
-                reifier_info,
-                &uncached_focus_nodes,
-                shapes_graph,
-            )?
-        } else {
-            Vec::new()
-        };
-
-        // Collect all NEW validation results (from uncached focus nodes)
-        let new_results: Vec<ValidationResult> = component_validation_results
-            .into_iter()
-            .chain(property_shapes_validation_results)
-            .chain(reification_results)
-            .collect();
+        if let Some(reifier_info) = self.reifier_info() {
+            for fnode in uncached_focus_nodes.iter() {
+                let results = validate_reifiers(
+                    self,
+                    store,
+                    runner,
+                    source_shape,
+                    reifier_info,
+                    &FocusNodes::single(fnode.clone()),
+                    shapes_graph,
+                )?;
+                nested_validation_results.push((fnode.clone(), results));
+            }
+        }
 
         // Record new results in the cache per focus node
         if let Some(idx) = idx {
@@ -146,11 +143,18 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
                 .filter_map(|n| RDF::term_as_object(n).ok())
                 .map(|obj| (obj, Vec::new()))
                 .collect();
-            for r in &new_results {
+            for r in &component_validation_results {
                 if let Some(bucket) = by_focus.get_mut(r.focus_node()) {
                     bucket.push(r.clone());
                 }
             }
+            for (fnode, results) in &nested_validation_results {
+                if let Ok(obj) = RDF::term_as_object(fnode)
+                    && let Some(bucket) = by_focus.get_mut(&obj)
+                {
+                    bucket.extend(results.iter().cloned());
+                }
+            }
             for (node_object, node_results) in by_focus {
                 runner.record_validation(node_object, *idx, node_results);
             }
@@ -158,7 +162,8 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
 
         // Merge cached results with newly computed results
         let mut all_results = cached_results;
-        all_results.extend(new_results);
+        all_results.extend(component_validation_results);
+        all_results.extend(nested_validation_results.into_iter().flat_map(|(_, results)| results));
         Ok(all_results)
     }
 }
-- 
2.43.0


From 1a118a5c6c65f7435ba7c40888a48f260c792bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:44 +0000
Subject: [PATCH 11/31] fix: sh:lessThan and sh:lessThanOrEquals do not order
 IRIs, blank nodes and language-tagged strings

---
 .../constraints/core/property_pair/less_than.rs       |  3 ++-
 .../core/property_pair/less_than_or_equals.rs         |  3 ++-
 .../validator/constraints/core/property_pair/mod.rs   | 11 +++++++++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/shacl/src/validator/constraints/core/property_pair/less_than.rs b/shacl/src/validator/constraints/core/property_pair/less_than.rs
index 29cdab9..fc7ce0b 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than.rs
@@ -5,6 +5,7 @@ use crate::types::MessageMap;
 #[cfg(feature = "sparql")]
 use crate::validator::constraints::BasicSparqlValidator;
 use crate::validator::constraints::NativeValidator;
+use crate::validator::constraints::core::property_pair::compare_values;
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
@@ -46,7 +47,7 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThan {
                         let node1 = S::term_as_object(triple.obj())?;
                         for value in nodes.iter() {
                             let node2 = S::term_as_object(value)?;
-                            let msg = match node2.partial_cmp(&node1) {
+                            let msg = match compare_values(&node2, &node1) {
                                 None => Some(format!(
                                     "LessThan constraint violated: {node1} is not comparable to {node2}"
                                 )),
diff --git a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
index 90ac900..48b42f2 100644
--- a/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
+++ b/shacl/src/validator/constraints/core/property_pair/less_than_or_equals.rs
@@ -5,6 +5,7 @@ use crate::types::MessageMap;
 #[cfg(feature = "sparql")]
 use crate::validator::constraints::BasicSparqlValidator;
 use crate::validator::constraints::NativeValidator;
+use crate::validator::constraints::core::property_pair::compare_values;
 use crate::validator::engine::Engine;
 use crate::validator::nodes::ValueNodes;
 use crate::validator::report::ValidationResult;
@@ -46,7 +47,7 @@ impl<S: NeighsRDF + Debug + 'static> NativeValidator<S> for LessThanOrEquals {
                         let node1 = S::term_as_object(triple.obj())?;
                         for value in nodes.iter() {
                             let node2 = S::term_as_object(value)?;
-                            let msg = match node2.partial_cmp(&node1) {
+                            let msg = match compare_values(&node2, &node1) {
                                 None => Some(format!(
                                     "LessThanOrEquals constraint violated: {node1} is not comparable to {node2}"
                                 )),
diff --git a/shacl/src/validator/constraints/core/property_pair/mod.rs b/shacl/src/validator/constraints/core/property_pair/mod.rs
index a792644..3a91fcc 100644
--- a/shacl/src/validator/constraints/core/property_pair/mod.rs
+++ b/shacl/src/validator/constraints/core/property_pair/mod.rs
@@ -2,3 +2,14 @@ mod disjoint;
 mod equals;
 mod less_than;
 mod less_than_or_equals;
+
+use rudof_rdf::rdf_core::term::Object;
+use std::cmp::Ordering;
+
+/// Order of two values as SPARQL's `<` sees it: only literals without language tag are comparable
+fn compare_values(a: &Object, b: &Object) -> Option<Ordering> {
+    match (a, b) {
+        (Object::Literal(a), Object::Literal(b)) if a.lang().is_none() && b.lang().is_none() => a.partial_cmp(b),
+        _ => None,
+    }
+}
-- 
2.43.0


From 95a5faab31fd3e7784d6a46605de15181869652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 12/31] fix: a value accepted by none of the triple constraints
 of its predicate is not ignored

---
 rbe/src/rbe_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rbe/src/rbe_table.rs b/rbe/src/rbe_table.rs
index 6ffd776..69d0307 100644
--- a/rbe/src/rbe_table.rs
+++ b/rbe/src/rbe_table.rs
@@ -232,7 +232,7 @@ where
             candidates.push(pairs);
         }
 
-        if candidates.is_empty() || pairs_found == 0 {
+        if candidates.is_empty() || (pairs_found == 0 && prefilter_failed.is_empty()) {
             /*tracing::trace!(
                 "No candidates for rbe: {}, candidates: {:?}, pairs_found: {pairs_found}",
                 self.rbe,
-- 
2.43.0


From 797de65d7c64bedd85d9c0d23209cef3c5039d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:49 +0000
Subject: [PATCH 13/31] fix: literals of value sets keep their lexical form and
 are compared with the data as terms

---
 rudof_rdf/src/rdf_core/term/literal/literal.rs |  9 +++++++++
 shex_ast/src/ast/object_value.rs               | 17 +++++++++++------
 shex_ast/src/ast/value_set_value.rs            | 12 ++++++------
 shex_ast/src/ir/ast2ir.rs                      | 12 +++++++++++-
 4 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index b099925..24a6c42 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -332,6 +332,15 @@ impl ConcreteLiteral {
         }
     }
 
+    /// Converts this literal to the representation that the same literal has when it is read from RDF data.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if the datatype of the literal cannot be resolved.
+    pub fn into_data_literal(self) -> Result<Self, RDFError> {
+        Self::try_from(oxrdf::Literal::from(self))
+    }
+
     /// Compares this literal with another for equality.
     ///
     /// This method performs type-aware comparison, ensuring that literals of
diff --git a/shex_ast/src/ast/object_value.rs b/shex_ast/src/ast/object_value.rs
index 548bc0e..2575f32 100644
--- a/shex_ast/src/ast/object_value.rs
+++ b/shex_ast/src/ast/object_value.rs
@@ -56,6 +56,11 @@ impl ObjectValue {
         ObjectValue::Literal(lit)
     }
 
+    /// Numeric literal with the lexical form it was written with
+    pub(crate) fn numeric_literal(lexical_form: &str, datatype: &str) -> ObjectValue {
+        ObjectValue::datatype_literal(lexical_form, &IriRef::iri(IriS::new_unchecked(datatype)))
+    }
+
     pub fn datatype_literal(lexical_form: &str, datatype: &IriRef) -> ObjectValue {
         ObjectValue::Literal(ConcreteLiteral::lit_datatype(lexical_form, datatype))
     }
@@ -317,28 +322,28 @@ impl<'de> Deserialize<'de> for ObjectValue {
                     },
                     Some(ObjectValueType::Decimal) => match value {
                         Some(s) => {
-                            let n = Decimal::from_str(&s).map_err(|e| {
+                            Decimal::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as decimal: Error {e}"))
                             })?;
-                            Ok(ObjectValue::decimal(n))
+                            Ok(ObjectValue::numeric_literal(&s, DECIMAL_STR))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ObjectValueType::Double) => match value {
                         Some(s) => {
-                            let n = f64::from_str(&s).map_err(|e| {
+                            f64::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as double: Error {e}"))
                             })?;
-                            Ok(ObjectValue::double(n))
+                            Ok(ObjectValue::numeric_literal(&s, DOUBLE_STR))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ObjectValueType::Integer) => match value {
                         Some(s) => {
-                            let n = isize::from_str(&s).map_err(|e| {
+                            isize::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as integer: Error {e}"))
                             })?;
-                            Ok(ObjectValue::integer(n))
+                            Ok(ObjectValue::numeric_literal(&s, INTEGER_STR))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
diff --git a/shex_ast/src/ast/value_set_value.rs b/shex_ast/src/ast/value_set_value.rs
index 192ecef..0dc697f 100644
--- a/shex_ast/src/ast/value_set_value.rs
+++ b/shex_ast/src/ast/value_set_value.rs
@@ -708,29 +708,29 @@ impl<'de> Deserialize<'de> for ValueSetValue {
                     },
                     Some(ValueSetValueType::Double) => match value {
                         Some(s) => {
-                            let n = f64::from_str(&s).map_err(|e| {
+                            f64::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as double: Error {e}"))
                             })?;
-                            Ok(ValueSetValue::ObjectValue(ObjectValue::double(n)))
+                            Ok(ValueSetValue::ObjectValue(ObjectValue::numeric_literal(&s, DOUBLE_STR)))
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ValueSetValueType::Decimal) => match value {
                         Some(s) => {
-                            let n = Decimal::from_str(&s).map_err(|e| {
+                            Decimal::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as decimal: Error {e}"))
                             })?;
-                            let v = ValueSetValue::ObjectValue(ObjectValue::decimal(n));
+                            let v = ValueSetValue::ObjectValue(ObjectValue::numeric_literal(&s, DECIMAL_STR));
                             Ok(v)
                         },
                         None => Err(de::Error::missing_field("value")),
                     },
                     Some(ValueSetValueType::Integer) => match value {
                         Some(s) => {
-                            let n = isize::from_str(&s).map_err(|e| {
+                            isize::from_str(&s).map_err(|e| {
                                 de::Error::custom(format!("Can't parse value {s} as integer: Error {e}"))
                             })?;
-                            let v = ValueSetValue::ObjectValue(ObjectValue::integer(n));
+                            let v = ValueSetValue::ObjectValue(ObjectValue::numeric_literal(&s, INTEGER_STR));
                             Ok(v)
                         },
                         None => Err(de::Error::missing_field("value")),
diff --git a/shex_ast/src/ir/ast2ir.rs b/shex_ast/src/ir/ast2ir.rs
index 178cb06..ba15f2e 100644
--- a/shex_ast/src/ir/ast2ir.rs
+++ b/shex_ast/src/ir/ast2ir.rs
@@ -1329,7 +1329,17 @@ fn cnv_object_value(ov: &ast::ObjectValue, prefixmap: &PrefixMap) -> CResult<Obj
             let iri = cnv_iri_ref(ir, prefixmap)?;
             Ok(ObjectValue::IriRef(iri))
         },
-        ast::ObjectValue::Literal(lit) => Ok(ObjectValue::ObjectLiteral(lit.clone())),
+        // Literals of the schema get the representation that literals of the data have, so both can be compared as terms
+        ast::ObjectValue::Literal(lit) => {
+            lit.clone()
+                .into_data_literal()
+                .map(ObjectValue::ObjectLiteral)
+                .map_err(|e| {
+                    Box::new(SchemaIRError::Internal {
+                        msg: format!("cnv_object_value: literal {lit}: {e}"),
+                    })
+                })
+        },
     }
 }
 
-- 
2.43.0


From 4ff44c1090ecb412bcd7ef2cb393335b58a09acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:54 +0000
Subject: [PATCH 14/31] fix: a value of an EXTRA property with a shape
 reference is ignored when it does not have the shape

---
 shex_validation/src/engine.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/shex_validation/src/engine.rs b/shex_validation/src/engine.rs
index 65aa01f..069f1ab 100644
--- a/shex_validation/src/engine.rs
+++ b/shex_validation/src/engine.rs
@@ -662,7 +662,7 @@ impl Engine {
                 }
                 // Lenient predicates (in EXTRA): only values that satisfy a leaf condition
                 // participate in the RBE; non-matching values fall into M^∉ and are ignored.
-                matches_any_leaf(shape.triple_expr(), pred, value, ctx)
+                matches_any_leaf(shape.triple_expr(), pred, value, ctx, typing)
             })
             .collect::<Vec<_>>();
         if shape.is_closed() && !reminder.is_empty() {
@@ -2098,14 +2098,15 @@ fn cond_has_ref(cond: &MatchCond<Pred, Node, ShapeLabelIdx, SemanticActionContex
 
 /// Returns true if `(pred, value)` satisfies at least one leaf condition in `expr`.
 ///
-/// For `MatchCond::Ref` leaves the value is kept in M^∈ conservatively — the RBE /
-/// pending-typing path already handles shape-reference validation correctly.
-fn matches_any_leaf(expr: &Expr, pred: &Pred, value: &Node, ctx: &SemanticActionContext) -> bool {
+/// A leaf with shape references is satisfied when the typing contains the pairs they leave pending.
+fn matches_any_leaf(expr: &Expr, pred: &Pred, value: &Node, ctx: &SemanticActionContext, typing: &RefTyping) -> bool {
     for (_, key, cond) in expr.components() {
         if &key != pred {
             continue;
         }
-        if cond_has_ref(&cond) || cond.matches(value, ctx).is_ok() {
+        if let Ok(pending) = cond.matches(value, ctx)
+            && pending.iter_vr().all(|(n, idx, _)| typing.contains(&(n.clone(), *idx)))
+        {
             return true;
         }
     }
-- 
2.43.0


From b9cf9bc8b14ba98ed28c8ec356872b430e56360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:37 +0000
Subject: [PATCH 15/31] fix: the zero before the decimal point is not counted
 by total digits

---
 rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index de06ac9..886a74b 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -319,10 +319,12 @@ impl NumericLiteral {
                     d.abs().to_string().len()
                 }
             },
-            // For decimals, normalize and count only digits
+            // For decimals, normalize and count the significant digits: a zero before the
+            // decimal point is not one of them, the zeros after it are
             NumericLiteral::Decimal(d) => {
                 let normalized = d.normalize();
-                normalized.to_string().chars().filter(|c| c.is_ascii_digit()).count()
+                let significant = normalized.mantissa().unsigned_abs().to_string().len();
+                significant.max(normalized.scale() as usize)
             },
             // Float/double don't have meaningful total digits
             NumericLiteral::Double(_) | NumericLiteral::Float(_) => return None,
-- 
2.43.0


From 50975c565ad9de47ff27501fc5473fd83934c502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:16 +0000
Subject: [PATCH 16/31] fix: numeric facets compare values outside the range of
 decimals

---
 .../rdf_core/term/literal/numeric_literal.rs  | 78 ++++++++++++++-----
 shex_ast/src/ast/cond_kind.rs                 |  4 +-
 2 files changed, 61 insertions(+), 21 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index 886a74b..c444be3 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -1,4 +1,5 @@
 use core::fmt;
+use std::cmp::Ordering;
 use std::fmt::Display;
 use std::str::FromStr;
 
@@ -243,25 +244,67 @@ impl NumericLiteral {
         self.to_string()
     }
 
+    /// Compares the numeric values of two literals.
+    ///
+    /// Values outside the range of `Decimal` are compared as integers when both are integers,
+    /// and as doubles otherwise. Returns `None` only for NaN.
+    fn compare_values(&self, other: &NumericLiteral) -> Option<Ordering> {
+        if let (Some(d1), Some(d2)) = (self.to_decimal(), other.to_decimal()) {
+            return Some(d1.cmp(&d2));
+        }
+        if let (Some(n1), Some(n2)) = (self.sign_and_magnitude(), other.sign_and_magnitude()) {
+            return Some(match (n1.0, n2.0) {
+                (false, false) => n1.1.cmp(&n2.1),
+                (true, true) => n2.1.cmp(&n1.1),
+                (true, false) => Ordering::Less,
+                (false, true) => Ordering::Greater,
+            });
+        }
+        self.to_double().partial_cmp(&other.to_double())
+    }
+
+    /// Sign (true when negative) and magnitude of the integer types.
+    fn sign_and_magnitude(&self) -> Option<(bool, u128)> {
+        match self {
+            NumericLiteral::Integer(n) | NumericLiteral::NegativeInteger(n) | NumericLiteral::NonPositiveInteger(n) => {
+                Some((*n < 0, n.unsigned_abs()))
+            },
+            NumericLiteral::Long(n) => Some((*n < 0, n.unsigned_abs().into())),
+            NumericLiteral::Short(n) => Some((*n < 0, n.unsigned_abs().into())),
+            NumericLiteral::Byte(n) => Some((*n < 0, n.unsigned_abs().into())),
+            NumericLiteral::NonNegativeInteger(n) | NumericLiteral::PositiveInteger(n) => Some((false, *n)),
+            NumericLiteral::UnsignedLong(n) => Some((false, (*n).into())),
+            NumericLiteral::UnsignedInt(n) => Some((false, (*n).into())),
+            NumericLiteral::UnsignedShort(n) => Some((false, (*n).into())),
+            NumericLiteral::UnsignedByte(n) => Some((false, (*n).into())),
+            NumericLiteral::Decimal(_) | NumericLiteral::Double(_) | NumericLiteral::Float(_) => None,
+        }
+    }
+
+    /// Closest double to the numeric value.
+    fn to_double(&self) -> f64 {
+        match self {
+            NumericLiteral::Double(d) => *d,
+            NumericLiteral::Float(f) => (*f).into(),
+            NumericLiteral::Decimal(d) => d.to_f64().unwrap_or(f64::NAN),
+            _ => match self.sign_and_magnitude() {
+                Some((true, n)) => -(n as f64),
+                Some((false, n)) => n as f64,
+                None => f64::NAN,
+            },
+        }
+    }
+
     /// Checks if this numeric literal is less than another.
     ///
-    /// Optimized for integer comparisons; falls back to decimal conversion
-    /// for mixed-type comparisons.
+    /// The comparison is by value across numeric types; NaN is not less than anything.
     pub fn less_than(&self, other: &NumericLiteral) -> bool {
-        match (self, other) {
-            // Fast path: direct integer comparison
-            (NumericLiteral::Integer(n1), NumericLiteral::Integer(n2)) => n1 < n2,
-            // Generic path: convert to decimal for comparison
-            (v1, v2) => v1.to_decimal() < v2.to_decimal(),
-        }
+        self.compare_values(other) == Some(Ordering::Less)
     }
 
     /// Checks if this numeric literal is less than or equal to another.
     pub fn less_than_or_eq(&self, other: &NumericLiteral) -> bool {
-        match (self, other) {
-            (NumericLiteral::Integer(n1), NumericLiteral::Integer(n2)) => n1 <= n2,
-            (v1, v2) => v1.to_decimal() <= v2.to_decimal(),
-        }
+        matches!(self.compare_values(other), Some(Ordering::Less | Ordering::Equal))
     }
 
     /// Returns the total number of digits in the literal.
@@ -637,14 +680,11 @@ impl Display for NumericLiteral {
     }
 }
 
-/// Ordering based on decimal conversion for cross-type comparisons.
+/// Ordering by numeric value, also across numeric types.
 impl PartialOrd for NumericLiteral {
-    // Convert both to Decimal and compare
-    // Returns None if conversion fails (e.g., NaN)
-    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let self_decimal = self.to_decimal()?;
-        let other_decimal = other.to_decimal()?;
-        self_decimal.partial_cmp(&other_decimal)
+    // Returns None if the values are not comparable (NaN)
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        self.compare_values(other)
     }
 }
 
diff --git a/shex_ast/src/ast/cond_kind.rs b/shex_ast/src/ast/cond_kind.rs
index 9dad5ef..335b7a1 100644
--- a/shex_ast/src/ast/cond_kind.rs
+++ b/shex_ast/src/ast/cond_kind.rs
@@ -316,7 +316,7 @@ pub(crate) fn check_node_min_inclusive(node: &Node, min: NumericLiteral) -> CRes
             msg: "check_node_min_inclusive: as_numeric error".to_string(),
         })
     })?;
-    if !node_num.less_than(&min) {
+    if min.less_than_or_eq(&node_num) {
         Ok(())
     } else {
         Err(Box::new(SchemaIRError::MinInclusiveError {
@@ -339,7 +339,7 @@ pub(crate) fn check_node_min_exclusive(node: &Node, min: NumericLiteral) -> CRes
             msg: "check_node_min_exclusive: as_numeric error".to_string(),
         })
     })?;
-    if !node_num.less_than_or_eq(&min) {
+    if min.less_than(&node_num) {
         Ok(())
     } else {
         Err(Box::new(SchemaIRError::MinExclusiveError {
-- 
2.43.0


From ccb33aa0fa3b9c87ffb5010f4289038c352f1e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:19 +0000
Subject: [PATCH 17/31] fix: length facets of ShEx count characters, not bytes

---
 rudof_rdf/src/rdf_core/term/triple.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/triple.rs b/rudof_rdf/src/rdf_core/term/triple.rs
index de7ef97..94a217e 100644
--- a/rudof_rdf/src/rdf_core/term/triple.rs
+++ b/rudof_rdf/src/rdf_core/term/triple.rs
@@ -241,7 +241,7 @@ impl Object {
 
 /// ## Accessors methods
 impl Object {
-    // Returns the length (in bytes) of this object's string representation.
+    /// Returns the length (in characters) of this object's string representation.
     ///
     /// - For IRIs: the length of the IRI string
     /// - For blank nodes: the length of the identifier
@@ -249,14 +249,14 @@ impl Object {
     /// - For triples: the sum of all component lengths
     pub fn length(&self) -> usize {
         match self {
-            Object::Iri(iri) => iri.as_str().len(),
-            Object::BlankNode(bn) => bn.len(),
-            Object::Literal(lit) => lit.lexical_form().len(),
+            Object::Iri(iri) => iri.as_str().chars().count(),
+            Object::BlankNode(bn) => bn.chars().count(),
+            Object::Literal(lit) => lit.lexical_form().chars().count(),
             Object::Triple {
                 subject,
                 predicate,
                 object,
-            } => subject.as_ref().length() + predicate.as_str().len() + object.as_ref().length(),
+            } => subject.as_ref().length() + predicate.as_str().chars().count() + object.as_ref().length(),
         }
     }
 
-- 
2.43.0


From c47c82bd9cbd22cb0de7583af5065aa993f1b0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:54 +0000
Subject: [PATCH 18/31] fix: literals of derived numeric datatypes keep the
 lexical form they have in the data

---
 .../src/rdf_core/term/literal/literal.rs      | 31 +++++--------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/literal.rs b/rudof_rdf/src/rdf_core/term/literal/literal.rs
index 24a6c42..eb923bf 100644
--- a/rudof_rdf/src/rdf_core/term/literal/literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/literal.rs
@@ -1074,30 +1074,15 @@ impl TryFrom<oxrdf::Literal> for ConcreteLiteral {
 
             (s, Some(dtype), None) => {
                 let datatype_iri = IriRef::iri(IriS::new_unchecked(dtype.as_str()));
-                let iri_str = dtype.as_str();
-                // For bare numeric types in Turtle, preserve original lexical form for valid values
-                // (ShEx value set matching requires lexical-form equality, not value equality).
+                // Numeric literals keep the original lexical form for valid values
+                // (ShEx value set matching requires term equality, not value equality).
                 // But invalid lexical forms must still produce WrongDatatypeLiteral.
-                if iri_str == XsdVocab::XSD_INTEGER
-                    || iri_str == XsdVocab::XSD_DECIMAL
-                    || iri_str == XsdVocab::XSD_DOUBLE
-                    || iri_str == XsdVocab::XSD_FLOAT
-                {
-                    match check_literal_datatype(s.as_ref(), &datatype_iri) {
-                        Ok(ConcreteLiteral::WrongDatatypeLiteral { error, .. }) => {
-                            Ok(ConcreteLiteral::WrongDatatypeLiteral {
-                                lexical_form: s.to_string(),
-                                datatype: datatype_iri,
-                                error,
-                            })
-                        },
-                        _ => Ok(ConcreteLiteral::DatatypeLiteral {
-                            lexical_form: s.to_string(),
-                            datatype: datatype_iri,
-                        }),
-                    }
-                } else {
-                    check_literal_datatype(s.as_ref(), &datatype_iri)
+                match check_literal_datatype(s.as_ref(), &datatype_iri)? {
+                    ConcreteLiteral::NumericLiteral(_) => Ok(ConcreteLiteral::DatatypeLiteral {
+                        lexical_form: s.to_string(),
+                        datatype: datatype_iri,
+                    }),
+                    checked => Ok(checked),
                 }
             },
 
-- 
2.43.0


From c5693fc05212d0c61e0f587c03bd3e8f15deb0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:07 +0000
Subject: [PATCH 19/31] fix: an integer outside the range of decimals is beyond
 every decimal

---
 .../rdf_core/term/literal/numeric_literal.rs  | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
index c444be3..259fa5d 100644
--- a/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
+++ b/rudof_rdf/src/rdf_core/term/literal/numeric_literal.rs
@@ -252,13 +252,19 @@ impl NumericLiteral {
         if let (Some(d1), Some(d2)) = (self.to_decimal(), other.to_decimal()) {
             return Some(d1.cmp(&d2));
         }
-        if let (Some(n1), Some(n2)) = (self.sign_and_magnitude(), other.sign_and_magnitude()) {
-            return Some(match (n1.0, n2.0) {
-                (false, false) => n1.1.cmp(&n2.1),
-                (true, true) => n2.1.cmp(&n1.1),
-                (true, false) => Ordering::Less,
-                (false, true) => Ordering::Greater,
-            });
+        match (self.sign_and_magnitude(), other.sign_and_magnitude()) {
+            (Some((true, n1)), Some((true, n2))) => return Some(n2.cmp(&n1)),
+            (Some((false, n1)), Some((false, n2))) => return Some(n1.cmp(&n2)),
+            (Some((true, _)), Some((false, _))) => return Some(Ordering::Less),
+            (Some((false, _)), Some((true, _))) => return Some(Ordering::Greater),
+            // An integer outside the range of decimals is beyond every decimal
+            (Some((negative, _)), None) if matches!(other, NumericLiteral::Decimal(_)) => {
+                return Some(if negative { Ordering::Less } else { Ordering::Greater });
+            },
+            (None, Some((negative, _))) if matches!(self, NumericLiteral::Decimal(_)) => {
+                return Some(if negative { Ordering::Greater } else { Ordering::Less });
+            },
+            _ => {},
         }
         self.to_double().partial_cmp(&other.to_double())
     }
-- 
2.43.0


From bd66b2182693311b4cb10e16d81b90e2d036c953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:32 +0000
Subject: [PATCH 20/31] fix: references of a triple constraint with semantic
 actions are dependencies of the shape

---
 shex_ast/src/ir/shape.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/shex_ast/src/ir/shape.rs b/shex_ast/src/ir/shape.rs
index f229546..09e0d13 100644
--- a/shex_ast/src/ir/shape.rs
+++ b/shex_ast/src/ir/shape.rs
@@ -3,7 +3,7 @@ use super::{
     dependency_graph::{DependencyGraph, PosNeg},
     sem_act::SemAct,
 };
-use crate::{Expr, Pred, ShapeLabelIdx, ir::schema_ir::SchemaIR};
+use crate::{Cond, Expr, Pred, ShapeLabelIdx, ir::schema_ir::SchemaIR};
 use itertools::Itertools;
 use serde::{Deserialize, Serialize};
 use std::{
@@ -108,10 +108,8 @@ impl Shape {
 
     pub fn add_edges(&self, source: ShapeLabelIdx, graph: &mut DependencyGraph, pos_neg: PosNeg) {
         for (_component, _pred, cond) in self.expr.components() {
-            match cond {
-                rbe::MatchCond::Single(_single_cond) => {},
-                rbe::MatchCond::And(_match_conds) => {},
-                rbe::MatchCond::Ref(r) => graph.add_edge(source, r, pos_neg),
+            for r in cond_references(&cond) {
+                graph.add_edge(source, r, pos_neg);
             }
         }
     }
@@ -119,18 +117,24 @@ impl Shape {
     fn get_value_expr_references(&self) -> HashMap<Pred, Vec<ShapeLabelIdx>> {
         let mut result: HashMap<Pred, Vec<ShapeLabelIdx>> = HashMap::new();
         for (_component, pred, cond) in self.expr.components() {
-            match cond {
-                rbe::MatchCond::Single(_single_cond) => {},
-                rbe::MatchCond::And(_match_conds) => {},
-                rbe::MatchCond::Ref(r) => {
-                    result.entry(pred.clone()).or_default().push(r);
-                },
+            let refs = cond_references(&cond);
+            if !refs.is_empty() {
+                result.entry(pred).or_default().extend(refs);
             }
         }
         result
     }
 }
 
+/// References of a condition. A reference together with semantic actions is inside a conjunction.
+fn cond_references(cond: &Cond) -> Vec<ShapeLabelIdx> {
+    match cond {
+        rbe::MatchCond::Single(_single_cond) => Vec::new(),
+        rbe::MatchCond::And(match_conds) => match_conds.iter().flat_map(cond_references).collect(),
+        rbe::MatchCond::Ref(r) => vec![*r],
+    }
+}
+
 impl Display for Shape {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let extends = if self.extends.is_empty() {
-- 
2.43.0


From c7fa96ccb87f1a17dc9f14c46fc33352bc8bb7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:38 +0000
Subject: [PATCH 21/31] fix: a closed shape without predicates has remaining
 triples too

Asking for no outgoing predicate returned no remainder, so CLOSED { } accepted every node.
---
 rudof_rdf/src/rdf_impl/backend.rs        | 3 ---
 sparql_service/src/srdf_data/rdf_data.rs | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/rudof_rdf/src/rdf_impl/backend.rs b/rudof_rdf/src/rdf_impl/backend.rs
index c6ece46..b31cf41 100644
--- a/rudof_rdf/src/rdf_impl/backend.rs
+++ b/rudof_rdf/src/rdf_impl/backend.rs
@@ -200,9 +200,6 @@ impl NeighsRDF for RdfBackend {
             return b.outgoing_arcs_from_list(subject, preds).map_err(Into::into);
         }
         // For InMemory and Qlever: default behavior — fetch all triples and filter in memory
-        if preds.is_empty() {
-            return Ok((std::collections::HashMap::new(), Vec::new()));
-        }
         let mut results: std::collections::HashMap<OxNamedNode, std::collections::HashSet<OxTerm>> =
             std::collections::HashMap::new();
         let mut reminder: Vec<OxNamedNode> = Vec::new();
diff --git a/sparql_service/src/srdf_data/rdf_data.rs b/sparql_service/src/srdf_data/rdf_data.rs
index a38de47..4972695 100644
--- a/sparql_service/src/srdf_data/rdf_data.rs
+++ b/sparql_service/src/srdf_data/rdf_data.rs
@@ -476,9 +476,6 @@ impl NeighsRDF for RdfData {
         ),
         Self::Err,
     > {
-        if preds.is_empty() {
-            return Ok((std::collections::HashMap::new(), Vec::new()));
-        }
         // Primary backend (in-memory or endpoint-backed): uses its own FILTER query when available
         let (mut results, reminder) = self
             .primary
-- 
2.43.0


From 9938d774b32e5ebf346acb5ca6570f9c487a0ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:00 +0000
Subject: [PATCH 22/31] fix: distributions without a match do not pile up on
 the stack

---
 rbe/src/rbe_table.rs | 94 ++++++++++++++++++++++----------------------
 1 file changed, 48 insertions(+), 46 deletions(-)

diff --git a/rbe/src/rbe_table.rs b/rbe/src/rbe_table.rs
index 69d0307..1b6ed1d 100644
--- a/rbe/src/rbe_table.rs
+++ b/rbe/src/rbe_table.rs
@@ -515,56 +515,58 @@ where
     type Item = Result<Pending<K, V, R>, rbe_error::RbeError<K, V, R, Ctx, P>>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let next_state = self.state.next();
-        match next_state {
-            None => {
-                if self.is_first {
-                    //trace!("Should be internal error? No more candidates");
-                    //trace!("RBE: {}", self.rbe);
-                    None
-                } else {
-                    //trace!("No more candidates");
-                    None
-                }
-            },
-            Some(vs) => {
-                let candidate: Vec<(K, V)> = vs.iter().map(|(k, v, _, _, _)| (k.clone(), v.clone())).collect();
-                let mut pending: Pending<K, V, R> = Pending::empty();
-                for (k, v, ctx, _, cond) in &vs {
-                    match cond.matches(v, ctx) {
-                        Ok(mut new_pending) => {
-                            /*tracing::trace!(
-                                "Condition {} matches value {}, pending: {} for key {}",
-                                cond,
-                                v,
-                                pending,
-                                k
-                            );*/
-                            new_pending.annotate_key(k);
-                            pending.merge(new_pending);
+        // A loop, not a recursive call: there can be exponentially many candidates without a match.
+        loop {
+            let next_state = self.state.next();
+            match next_state {
+                None => {
+                    if self.is_first {
+                        //trace!("Should be internal error? No more candidates");
+                        //trace!("RBE: {}", self.rbe);
+                        return None;
+                    } else {
+                        //trace!("No more candidates");
+                        return None;
+                    }
+                },
+                Some(vs) => {
+                    let candidate: Vec<(K, V)> = vs.iter().map(|(k, v, _, _, _)| (k.clone(), v.clone())).collect();
+                    let mut pending: Pending<K, V, R> = Pending::empty();
+                    for (k, v, ctx, _, cond) in &vs {
+                        match cond.matches(v, ctx) {
+                            Ok(mut new_pending) => {
+                                /*tracing::trace!(
+                                    "Condition {} matches value {}, pending: {} for key {}",
+                                    cond,
+                                    v,
+                                    pending,
+                                    k
+                                );*/
+                                new_pending.annotate_key(k);
+                                pending.merge(new_pending);
+                            },
+                            Err(err) => {
+                                //tracing::trace!("Failed condition: {cond} with value: {v} and key {k}, error: {err}");
+                                self.failed.push((candidate, k.clone(), v.clone(), err.clone()));
+                                return Some(Err(err));
+                            },
+                        }
+                    }
+                    let bag = Bag::from_iter(vs.into_iter().map(|(_, _, _, c, _)| c));
+                    match self.rbe.match_bag_interval(&bag, self.open) {
+                        Ok(()) => {
+                            //tracing::trace!("### Rbe {} matches bag {}", self.rbe, bag);
+                            self.is_first = false;
+                            return Some(Ok(pending));
                         },
                         Err(err) => {
-                            //tracing::trace!("Failed condition: {cond} with value: {v} and key {k}, error: {err}");
-                            self.failed.push((candidate, k.clone(), v.clone(), err.clone()));
-                            return Some(Err(err));
+                            //tracing::trace!("### Rbe {} does not match bag {}, error: {err}", self.rbe, bag);
+                            //trace!("### Skipped error: {err}!\n");
+                            self.failed_cardinality.push((candidate, err));
                         },
                     }
-                }
-                let bag = Bag::from_iter(vs.into_iter().map(|(_, _, _, c, _)| c));
-                match self.rbe.match_bag_interval(&bag, self.open) {
-                    Ok(()) => {
-                        //tracing::trace!("### Rbe {} matches bag {}", self.rbe, bag);
-                        self.is_first = false;
-                        Some(Ok(pending))
-                    },
-                    Err(err) => {
-                        //tracing::trace!("### Rbe {} does not match bag {}, error: {err}", self.rbe, bag);
-                        //trace!("### Skipped error: {err}!\n");
-                        self.failed_cardinality.push((candidate, err));
-                        self.next()
-                    },
-                }
-            },
+                },
+            }
         }
     }
 }
-- 
2.43.0


From b0675cd27b563de07d83fa61c7350090f36a4ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:06 +0000
Subject: [PATCH 23/31] fix: missing reifiers are reported on the focus node by
 the property shape, and literal focus nodes do not abort the validation

---
 shacl/src/validator/engine/validate.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/shacl/src/validator/engine/validate.rs b/shacl/src/validator/engine/validate.rs
index 51c620e..d8de856 100644
--- a/shacl/src/validator/engine/validate.rs
+++ b/shacl/src/validator/engine/validate.rs
@@ -126,7 +126,6 @@ impl<RDF: NeighsRDF + Debug> Validate<RDF> for IRShape {
                     self,
                     store,
                     runner,
-                    source_shape,
                     reifier_info,
                     &FocusNodes::single(fnode.clone()),
                     shapes_graph,
@@ -172,7 +171,6 @@ fn validate_reifiers<RDF: NeighsRDF + Debug>(
     shape: &IRShape,
     store: &RDF,
     runner: &mut dyn Engine<RDF>,
-    source_shape: Option<&IRShape>,
     reifier_info: &ReifierInfo,
     focus_nodes: &FocusNodes<RDF>,
     shapes_graph: &IRSchema,
@@ -183,7 +181,10 @@ fn validate_reifiers<RDF: NeighsRDF + Debug>(
         for reifier_shape in reifier_info.reifier_shape() {
             let pred = reifier_info.predicate();
             let pred_iri: RDF::IRI = pred.clone().into();
-            let subject = RDF::term_as_subject(node)?;
+            // A literal is the subject of no triple
+            let Ok(subject) = RDF::term_as_subject(node) else {
+                continue;
+            };
             let triples = store
                 .triples_with_subject_predicate(&subject, &pred_iri)
                 .map_err(ValidationError::new_graph_error::<RDF>)?;
@@ -195,7 +196,7 @@ fn validate_reifiers<RDF: NeighsRDF + Debug>(
                     .collect::<Vec<_>>();
                 if reifier_subjects.is_empty() && reifier_info.reification_required() {
                     let vr_single = ValidationResult::new(
-                        shape.id().clone(),
+                        RDF::term_as_object(node)?,
                         Object::iri(ShaclVocab::sh_reifier_shape_constraint_component()),
                         shape.severity().clone(),
                     )
@@ -203,7 +204,7 @@ fn validate_reifiers<RDF: NeighsRDF + Debug>(
                         "Reification required but no reifier found for triple {triple} with predicate {pred}",
                     ))
                     .with_path(Some(SHACLPath::iri(pred.clone())))
-                    .with_source(source_shape.map(|s| s.id()).cloned());
+                    .with_source(Some(shape.id().clone()));
                     results.push(vr_single);
                     continue;
                 }
-- 
2.43.0


From 16953be8ef4fb654268710a3fa00607a57a1d2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:17 +0000
Subject: [PATCH 24/31] fix: resolving a prefixed name concatenates the
 namespace and the local name

---
 prefixmap/src/prefix_map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prefixmap/src/prefix_map.rs b/prefixmap/src/prefix_map.rs
index 42d3cf2..6f64fea 100644
--- a/prefixmap/src/prefix_map.rs
+++ b/prefixmap/src/prefix_map.rs
@@ -566,7 +566,8 @@ impl PrefixMap {
                 if local.is_empty() {
                     return Ok(iri.clone());
                 }
-                let new_iri = iri.extend(local.as_str())?;
+                // A prefixed name denotes the concatenation of the namespace and the local name
+                let new_iri = IriS::new(&format!("{}{}", iri.as_str(), local))?;
                 Ok(new_iri)
             },
             None => Err(PrefixMapError::PrefixNotFound {
-- 
2.43.0


From c0a55dc8c0a564d81bce5c1f3f82efd7ebb79915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:17 +0000
Subject: [PATCH 25/31] fix: the prefix of a prefixed name ends at its first
 colon

---
 prefixmap/src/prefix_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prefixmap/src/prefix_map.rs b/prefixmap/src/prefix_map.rs
index 6f64fea..0ed396a 100644
--- a/prefixmap/src/prefix_map.rs
+++ b/prefixmap/src/prefix_map.rs
@@ -511,7 +511,7 @@ impl PrefixMap {
     /// # Ok::<(), PrefixMapError>(())
     /// ```
     pub fn resolve(&self, str: &str) -> Result<IriS, PrefixMapError> {
-        match str.rsplit_once(':') {
+        match str.split_once(':') {
             Some((prefix, local)) => Ok(self.resolve_prefix_local(prefix, local)?),
             None => Ok(IriS::from_str(str)?),
         }
-- 
2.43.0


From 8a805e1cff8717c8e7917c61c469ebd229300a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:06 +0000
Subject: [PATCH 26/31] fix: escapes in the local names of ShExC are decoded

---
 shex_ast/src/compact/shex_grammar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index 0da4d17..f0f4a3f 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -1882,7 +1882,8 @@ fn digits(i: Span) -> IRes<i128> {
 fn pname_ln(i: Span) -> IRes<IriRef> {
     // This code is different here: https://github.com/vandenoever/rome/blob/047cf54def2aaac75ac4b9adbef08a9d010689bd/src/io/turtle/grammar.rs#L293
     let (i, (prefix, local)) = (pname_ns, pn_local).parse(i)?;
-    Ok((i, IriRef::prefixed(*prefix.fragment(), local)))
+    // Backslashes only appear in local names as part of escapes (`PN_LOCAL_ESC`)
+    Ok((i, IriRef::prefixed(prefix.fragment().to_string(), local.replace('\\', ""))))
 }
 
 /// `[77] <PN_LOCAL> ::= (PN_CHARS_U | ":" | [0-9] | PLX) (PN_CHARS | "." | ":" | PLX)`
-- 
2.43.0


From a576b7d48e8ac3bba78b151a7c7b89ea00cecace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:06 +0000
Subject: [PATCH 27/31] fix: characters of ShExC names outside ASCII are not
 cut

---
 shex_ast/src/compact/shex_grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shex_ast/src/compact/shex_grammar.rs b/shex_ast/src/compact/shex_grammar.rs
index f0f4a3f..b7838b7 100644
--- a/shex_ast/src/compact/shex_grammar.rs
+++ b/shex_ast/src/compact/shex_grammar.rs
@@ -2160,7 +2160,7 @@ fn one_if<'a, F: Fn(char) -> bool>(f: F) -> impl Fn(Span<'a>) -> IRes<'a, Span<'
     move |i| {
         if let Some(c) = i.chars().next() {
             if f(c) {
-                Ok(i.take_split(1))
+                Ok(i.take_split(c.len_utf8()))
             } else {
                 Err(Err::Error(error_position!(i, ErrorKind::OneOf)))
             }
-- 
2.43.0


From 7703a435b2b2f9b501fe097047b9770df1b767aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:06 +0000
Subject: [PATCH 28/31] fix: a negative dependency prevails over a positive one
 between the same shapes

---
 shex_ast/src/ir/dependency_graph.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shex_ast/src/ir/dependency_graph.rs b/shex_ast/src/ir/dependency_graph.rs
index acdd6e2..340ca32 100644
--- a/shex_ast/src/ir/dependency_graph.rs
+++ b/shex_ast/src/ir/dependency_graph.rs
@@ -16,6 +16,11 @@ impl DependencyGraph {
     }
 
     pub fn add_edge(&mut self, from: ShapeLabelIdx, to: ShapeLabelIdx, pos_neg: PosNeg) {
+        // A negative dependency prevails over a positive one between the same shapes
+        let pos_neg = match self.graph.edge_weight(from, to) {
+            Some(PosNeg::Neg) => PosNeg::Neg,
+            _ => pos_neg,
+        };
         self.graph.add_edge(from, to, pos_neg);
     }
 
-- 
2.43.0


From 75896f48e6d748f139b170eb1a41551e8c25088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:06 +0000
Subject: [PATCH 29/31] fix: a shape expression seen outside of a negation is
 visited again inside of one

---
 shex_ast/src/ir/shape_expr.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/shex_ast/src/ir/shape_expr.rs b/shex_ast/src/ir/shape_expr.rs
index b6f515c..a0a3378 100644
--- a/shex_ast/src/ir/shape_expr.rs
+++ b/shex_ast/src/ir/shape_expr.rs
@@ -214,17 +214,17 @@ impl ShapeExpr {
         graph: &mut DependencyGraph,
         pos_neg: PosNeg,
         schema: &'a SchemaIR,
-        visited: &mut Vec<&'a ShapeExpr>,
+        visited: &mut Vec<(&'a ShapeExpr, PosNeg)>,
     ) {
         match self {
             ShapeExpr::ShapeOr { exprs, .. } => {
                 for expr in exprs {
                     if let Some(info) = schema.find_shape_idx(expr) {
                         let expr = info.expr();
-                        if visited.contains(&expr) {
+                        if visited.contains(&(expr, pos_neg)) {
                             continue;
                         } else {
-                            visited.push(expr);
+                            visited.push((expr, pos_neg));
                             expr.add_edges(source, graph, pos_neg, schema, visited);
                         }
                     }
@@ -234,10 +234,10 @@ impl ShapeExpr {
                 for expr in exprs {
                     if let Some(info) = schema.find_shape_idx(expr) {
                         let expr = info.expr();
-                        if visited.contains(&expr) {
+                        if visited.contains(&(expr, pos_neg)) {
                             continue;
                         } else {
-                            visited.push(expr);
+                            visited.push((expr, pos_neg));
                             expr.add_edges(source, graph, pos_neg, schema, visited);
                         }
                     }
@@ -246,10 +246,11 @@ impl ShapeExpr {
             ShapeExpr::ShapeNot { expr, .. } => {
                 if let Some(info) = schema.find_shape_idx(expr) {
                     let expr = info.expr();
-                    if visited.contains(&expr) {
+                    let pos_neg = pos_neg.change();
+                    if visited.contains(&(expr, pos_neg)) {
                     } else {
-                        visited.push(expr);
-                        expr.add_edges(source, graph, pos_neg.change(), schema, visited);
+                        visited.push((expr, pos_neg));
+                        expr.add_edges(source, graph, pos_neg, schema, visited);
                     }
                 }
             },
-- 
2.43.0


From 57f70d0811ae6efa34184603a562a8992025ea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:06 +0000
Subject: [PATCH 30/31] fix: references of triple constraints with an EXTRA
 predicate are negative dependencies

---
 shex_ast/src/ir/shape.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/shex_ast/src/ir/shape.rs b/shex_ast/src/ir/shape.rs
index 09e0d13..db5ae15 100644
--- a/shex_ast/src/ir/shape.rs
+++ b/shex_ast/src/ir/shape.rs
@@ -107,7 +107,13 @@ impl Shape {
     }*/
 
     pub fn add_edges(&self, source: ShapeLabelIdx, graph: &mut DependencyGraph, pos_neg: PosNeg) {
-        for (_component, _pred, cond) in self.expr.components() {
+        for (_component, pred, cond) in self.expr.components() {
+            // Triples with an EXTRA predicate must not conform to the referenced shape
+            let pos_neg = if self.extra.contains(&pred) {
+                PosNeg::Neg
+            } else {
+                pos_neg
+            };
             for r in cond_references(&cond) {
                 graph.add_edge(source, r, pos_neg);
             }
-- 
2.43.0


From 091d56d75c8ecb26a7326c94492aecda196373b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:49 +0000
Subject: [PATCH 31/31] fix: collecting the predicates of a shape expression
 terminates on circular references

---
 shex_ast/src/ir/shape_expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shex_ast/src/ir/shape_expr.rs b/shex_ast/src/ir/shape_expr.rs
index a0a3378..5f8b7bc 100644
--- a/shex_ast/src/ir/shape_expr.rs
+++ b/shex_ast/src/ir/shape_expr.rs
@@ -200,7 +200,7 @@ impl ShapeExpr {
                 visited.insert(*idx);
                 let info = schema.find_shape_idx(idx).unwrap();
                 let expr = info.expr();
-                preds.extend(expr.preds(schema));
+                preds.extend(expr.preds_visited(schema, visited));
             },
             ShapeExpr::Empty => {},
         }
-- 
2.43.0

