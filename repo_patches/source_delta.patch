From fc8657a670c7199cb8ea4975335e1b03ec3f1620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:05 +0000
Subject: [PATCH 1/5] fix: verify links inside inlined schemas

verify_schemas skipped every inlined model, so a dangling link one level
below a registered schema was reported as valid.
---
 opg/src/models.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index a761c3e..479a8db 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -1045,6 +1045,7 @@ impl ModelReference {
     fn traverse<'a>(&'a self, mut cx: TraverseContext<'a>) -> Result<(), &'a str> {
         match &self {
             ModelReference::Link(ref link) => cx.check(link),
+            ModelReference::Inline(model) => model.traverse(cx),
             _ => Ok(()),
         }
     }
-- 
2.43.0


From 6fb3e4e7250f9c430417d49d00fb13bdb78808d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:06 +0000
Subject: [PATCH 2/5] fix: do not modify an object when merging into it fails

merge inserted the properties that sort before the conflicting one (without
their required entries) before it returned the error.
---
 opg/src/models.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 479a8db..509a95e 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -966,6 +966,15 @@ impl ModelObject {
 
     /// Merge other object into self
     pub fn merge(&mut self, another: ModelObject) -> Result<(), ModelMergeError> {
+        // Detect conflicts first, a failed merge must not modify this object
+        if another
+            .properties
+            .keys()
+            .any(|property| self.properties.contains_key(property))
+        {
+            return Err(ModelMergeError);
+        }
+
         another
             .properties
             .into_iter()
-- 
2.43.0


From 4e46ad0132425ffcc8fcb0492519dd4c33a65a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:07 +0000
Subject: [PATCH 3/5] fix: keep the operations of callbacks with a literal name

The rule expanded the tokens after the callback instead of its own body, so
`"name": { ... }` callbacks were emitted empty.
---
 opg/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 3657741..308adda 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -607,8 +607,8 @@ macro_rules! describe_api {
     (@opg_path_value_body_properties $result:ident $description:ident $required:ident $schema:ident $(,)?) => {};
 
     (@opg_path_value_callbacks $result:ident $context:ident $callback:literal: { $($operations:tt)* }, $($other:tt)*) => {
-        let mut callback_object = CallbackObject::default();
-        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($other)*,);
+        let mut callback_object = $crate::models::CallbackObject::default();
+        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($operations)*,);
         $context.callbacks.insert($callback.to_owned(), callback_object);
 
         $crate::describe_api!(@opg_path_value_callbacks $result $context $($other)*)
-- 
2.43.0


From cd43f52daeeebd2388cb1f54d64988b364faff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:48 +0000
Subject: [PATCH 4/5] fix: keep optional mentions from making the shared schema
 nullable

Option<T> borrowed the name of T, so whichever of T and Option<T> was
mentioned first decided whether the registered schema of T was nullable.
An optional mention of a linked type is now expressed at the place of use,
and transparent wrappers select the reference of the wrapped type.
---
 opg/src/macros.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 308adda..aaabd9a 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -178,7 +178,30 @@ macro_rules! impl_opg_model (
 
             #[inline]
             fn type_name() -> Option<std::borrow::Cow<'static, str>> {
-                <T as $crate::OpgModel>::type_name()
+                None
+            }
+
+            fn select_reference(cx: &mut $crate::Components, inline: bool, params: &$crate::ContextParams) -> $crate::ModelReference {
+                match cx.mention_schema::<T>(inline, params) {
+                    // The linked schema is shared with mentions which are not nullable
+                    link @ $crate::ModelReference::Link(_) => {
+                        let null = <() as $crate::OpgModel>::get_schema(cx);
+                        $crate::ModelReference::Inline($crate::Model {
+                            description: params.description.clone(),
+                            data: $crate::ModelData::OneOf($crate::ModelOneOf {
+                                one_of: vec![link, $crate::ModelReference::Inline(null)],
+                            }),
+                        })
+                    }
+                    $crate::ModelReference::Inline(model) => {
+                        let nullable = $crate::ContextParams {
+                            nullable: Some(true),
+                            ..Default::default()
+                        };
+                        $crate::ModelReference::Inline(model.apply_params(&nullable).apply_params(params))
+                    }
+                    any => any,
+                }
             }
         }
     };
@@ -196,6 +219,11 @@ macro_rules! impl_opg_model (
             fn type_name() -> Option<std::borrow::Cow<'static, str>> {
                 <T as $crate::OpgModel>::type_name()
             }
+
+            #[inline]
+            fn select_reference(cx: &mut $crate::Components, inline: bool, params: &$crate::ContextParams) -> $crate::ModelReference {
+                <T as $crate::OpgModel>::select_reference(cx, inline, params)
+            }
         }
     };
 
-- 
2.43.0


From 09d4a3dfd688286b40852cdbfa83d32035a64e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:51 +0000
Subject: [PATCH 5/5] fix: stop registering recursive types from overflowing
 the stack

A type that mentions itself was generated again and again, because its name
was only registered after its schema was complete. The name is now reserved
while the schema is generated, and taken back if that panics.
---
 opg/src/models.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 509a95e..5929c57 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -1,6 +1,7 @@
 use std::borrow::Cow;
-use std::collections::{btree_map::Entry, BTreeMap};
+use std::collections::{btree_map::Entry, BTreeMap, BTreeSet};
 use std::fmt::Write;
+use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
 
 use either::*;
 use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct};
@@ -540,8 +541,24 @@ impl Components {
         let reference = M::select_reference(self, inline, params);
         if let ModelReference::Link(link) = &reference {
             if !self.schemas.contains_key(link) {
-                let structure = M::get_schema(self);
-                self.schemas.insert(link.to_owned(), structure);
+                // Reserve the name, so recursive mentions resolve to a link
+                let known = self.schemas.keys().cloned().collect::<BTreeSet<_>>();
+                let reserved = Model {
+                    description: None,
+                    data: ModelData::OneOf(ModelOneOf::default()),
+                };
+                self.schemas.insert(link.to_owned(), reserved);
+
+                match catch_unwind(AssertUnwindSafe(|| M::get_schema(self))) {
+                    Ok(structure) => {
+                        self.schemas.insert(link.to_owned(), structure);
+                    }
+                    Err(panic) => {
+                        // Neither the reserved name nor schemas linking to it may stay
+                        self.schemas.retain(|name, _| known.contains(name));
+                        resume_unwind(panic)
+                    }
+                }
             }
         }
         reference
-- 
2.43.0

