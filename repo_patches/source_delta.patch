From e8394011f0583c8694e0c3d105922a749983ffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:11 +0000
Subject: [PATCH 01/27] fix: don't offer an implicit move constructor when a
 member can't be destroyed

C++ defines the implicit move constructor as deleted if any member (not just
any base) has a deleted or inaccessible destructor.
---
 .../src/conversion/analysis/fun/implicit_constructors.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/implicit_constructors.rs b/engine/src/conversion/analysis/fun/implicit_constructors.rs
index 5a503b7..8c3af22 100644
--- a/engine/src/conversion/analysis/fun/implicit_constructors.rs
+++ b/engine/src/conversion/analysis/fun/implicit_constructors.rs
@@ -510,7 +510,7 @@ pub(super) fn find_constructors_present(
                 // The implicitly-declared or defaulted move constructor for class T is defined as deleted if any of the following is true:
                 // T has non-static data members that cannot be moved (have deleted, inaccessible, or ambiguous move constructors);
                 // T has direct or virtual base class that cannot be moved (has deleted, inaccessible, or ambiguous move constructors);
-                // T has direct or virtual base class with a deleted or inaccessible destructor;
+                // T has direct or virtual base class or a non-static data member with a deleted or inaccessible destructor;
                 // T is a union-like class and has a variant member with non-trivial move constructor. // we don't support unions anyway
                 let move_constructor = {
                     let explicit = find_explicit(ExplicitKind::MoveConstructor);
@@ -528,9 +528,10 @@ pub(super) fn find_constructors_present(
                             items_found.destructor.callable_subclass()
                                 && items_found.move_constructor.callable_subclass()
                         });
-                        let members_allow = fields_items_found
-                            .iter()
-                            .all(|items_found| items_found.move_constructor.callable_any());
+                        let members_allow = fields_items_found.iter().all(|items_found| {
+                            items_found.destructor.callable_any()
+                                && items_found.move_constructor.callable_any()
+                        });
                         if bases_allow && members_allow {
                             // TODO: For https://github.com/google/autocxx/issues/815, grab the
                             // visibility from an explicit default if present.
-- 
2.43.0


From 92a81ae534ddf29a5093091fb01dcfd97b92b357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:25 +0000
Subject: [PATCH 02/27] fix: treat a class with a pure virtual destructor as
 abstract

Such a class can't be instantiated, so no constructors may be offered.
---
 .../src/conversion/analysis/abstract_types.rs | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/engine/src/conversion/analysis/abstract_types.rs b/engine/src/conversion/analysis/abstract_types.rs
index 7a9986f..04b5cad 100644
--- a/engine/src/conversion/analysis/abstract_types.rs
+++ b/engine/src/conversion/analysis/abstract_types.rs
@@ -6,6 +6,7 @@
 // option. This file may not be copied, modified, or distributed
 // except according to those terms.
 
+use autocxx_bindgen::callbacks::Virtualness;
 use indexmap::map::IndexMap as HashMap;
 use syn::{punctuated::Punctuated, token::Comma};
 
@@ -107,6 +108,27 @@ pub(crate) fn mark_types_abstract(apis: ApiVec<FnPrePhase2>) -> ApiVec<FnPrePhas
                 _ => {}
             }
         }
+        // A pure virtual destructor makes a class abstract, but (unlike other
+        // pure virtual functions) it's always overridden in any derived class.
+        if let Api::Function {
+            fun,
+            analysis:
+                FnAnalysis {
+                    kind:
+                        FnKind::TraitMethod {
+                            kind: TraitMethodKind::Destructor,
+                            impl_for,
+                            ..
+                        },
+                    ..
+                },
+            ..
+        } = api
+        {
+            if matches!(fun.virtualness, Some(Virtualness::PureVirtual)) {
+                abstract_classes.insert(impl_for.clone());
+            }
+        }
     }
 
     for api in fields_and_bases_first(apis.iter()) {
-- 
2.43.0


From 60e5287e5cd5345cf056de3c77ae7123d5ba5745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:37 +0000
Subject: [PATCH 03/27] fix: analyse array element types before the classes
 containing them

---
 engine/src/conversion/analysis/pod/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/engine/src/conversion/analysis/pod/mod.rs b/engine/src/conversion/analysis/pod/mod.rs
index 47baade..7e22d80 100644
--- a/engine/src/conversion/analysis/pod/mod.rs
+++ b/engine/src/conversion/analysis/pod/mod.rs
@@ -245,12 +245,15 @@ fn get_struct_field_types(
                     .unwrap_or(false)
                 {
                     field_deps.extend(r.types_encountered);
-                    if let Type::Path(typ) = &r.ty {
-                        // Later analyses need to know about the field
-                        // types where we need full definitions, as opposed
-                        // to just declarations. That means just the outermost
-                        // type path.
-                        // TODO: consider arrays.
+                    // Later analyses need to know about the field
+                    // types where we need full definitions, as opposed
+                    // to just declarations. That means just the outermost
+                    // type path, or the element type of an array.
+                    let mut definition_ty: &Type = &r.ty;
+                    while let Type::Array(arr) = definition_ty {
+                        definition_ty = &arr.elem;
+                    }
+                    if let Type::Path(typ) = definition_ty {
                         field_definition_deps.insert(QualifiedName::from_type_path(typ));
                     }
                     field_info.push(FieldInfo {
-- 
2.43.0


From f806d3f2a2db091b024874c4f3928b5c3aad4014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:21 +0000
Subject: [PATCH 04/27] fix: generate_ns! must not match other namespaces with
 the same prefix

---
 parser/src/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/config.rs b/parser/src/config.rs
index 925039c..393810b 100644
--- a/parser/src/config.rs
+++ b/parser/src/config.rs
@@ -371,7 +371,9 @@ impl IncludeCppConfig {
                 Allowlist::All => true,
                 Allowlist::Specific(items) => items.iter().any(|entry| match entry {
                     AllowlistEntry::Item(i) => i == cpp_name,
-                    AllowlistEntry::Namespace(ns) => cpp_name.starts_with(ns),
+                    AllowlistEntry::Namespace(ns) => cpp_name
+                        .strip_prefix(ns.as_str())
+                        .is_some_and(|rest| rest.starts_with("::")),
                 }),
             }
     }
-- 
2.43.0


From c48a70c0d4619a7e004549e57dc888b4aec3d3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:19 +0000
Subject: [PATCH 05/27] fix: block! also applies to type aliases

---
 engine/src/conversion/parse/parse_bindgen.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/engine/src/conversion/parse/parse_bindgen.rs b/engine/src/conversion/parse/parse_bindgen.rs
index 513278a..883fd78 100644
--- a/engine/src/conversion/parse/parse_bindgen.rs
+++ b/engine/src/conversion/parse/parse_bindgen.rs
@@ -335,12 +335,15 @@ impl<'a> ParseBindgen<'a> {
                                     Some(ErrorContext::new_for_item(new_id.clone().into())),
                                 ));
                             }
-                            self.apis.push(UnanalyzedApi::Typedef {
+                            let api = UnanalyzedApi::Typedef {
                                 name: api_name(ns, new_id.clone(), self.parse_callback_results),
                                 item: TypedefKind::Use(Box::new(Type::Path(old_path).into())),
                                 old_tyname: Some(old_tyname),
                                 analysis: (),
-                            });
+                            };
+                            if !self.config.is_on_blocklist(&api.name().to_cpp_name()) {
+                                self.apis.push(api);
+                            }
                             break;
                         }
                         _ => return Ok(()),
@@ -371,12 +374,15 @@ impl<'a> ParseBindgen<'a> {
             Item::Type(ity) => {
                 // It's known that sometimes bindgen will give us duplicate typedefs with the
                 // same name - see test_issue_264.
-                self.apis.push(UnanalyzedApi::Typedef {
+                let api = UnanalyzedApi::Typedef {
                     name: api_name(ns, ity.ident.clone(), self.parse_callback_results),
                     item: TypedefKind::Type(ity.clone().into()),
                     old_tyname: None,
                     analysis: (),
-                });
+                };
+                if !self.config.is_on_blocklist(&api.name().to_cpp_name()) {
+                    self.apis.push(api);
+                }
                 Ok(())
             }
             _ => Err(ConvertErrorWithContext(
-- 
2.43.0


From c6a83ef0fe520cc0808891d5b31c2814fcdb1db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:39 +0000
Subject: [PATCH 06/27] fix: resolve aliases of enums inside namespaces

---
 engine/src/conversion/parse/parse_bindgen.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/conversion/parse/parse_bindgen.rs b/engine/src/conversion/parse/parse_bindgen.rs
index 883fd78..334089e 100644
--- a/engine/src/conversion/parse/parse_bindgen.rs
+++ b/engine/src/conversion/parse/parse_bindgen.rs
@@ -321,6 +321,10 @@ impl<'a> ParseBindgen<'a> {
                                 segs.remove(0) == "super",
                                 "Path didn't start with self::super"
                             );
+                            // bindgen adds another 'super' for each enclosing namespace
+                            while segs.first().is_some_and(|seg| seg == "super") {
+                                segs.remove(0);
+                            }
                             // This is similar to the path encountered within 'tree'
                             // but without the self::super prefix which is unhelpful
                             // in our output mod, because we prefer relative paths
-- 
2.43.0


From 96f4b38f3b4fa3fd4a2ac2525bbb7ad02bccb135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:44 +0000
Subject: [PATCH 07/27] fix: don't try to attach methods to blocked types

---
 engine/src/conversion/parse/parse_bindgen.rs     | 2 +-
 engine/src/conversion/parse/parse_foreign_mod.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/engine/src/conversion/parse/parse_bindgen.rs b/engine/src/conversion/parse/parse_bindgen.rs
index 334089e..7117c81 100644
--- a/engine/src/conversion/parse/parse_bindgen.rs
+++ b/engine/src/conversion/parse/parse_bindgen.rs
@@ -201,7 +201,7 @@ impl<'a> ParseBindgen<'a> {
             });
         }
         self.apis.append(&mut more_apis);
-        mod_converter.finished(&mut self.apis);
+        mod_converter.finished(&mut self.apis, self.config);
     }
 
     fn parse_item(
diff --git a/engine/src/conversion/parse/parse_foreign_mod.rs b/engine/src/conversion/parse/parse_foreign_mod.rs
index cc268e7..7a73e5e 100644
--- a/engine/src/conversion/parse/parse_foreign_mod.rs
+++ b/engine/src/conversion/parse/parse_foreign_mod.rs
@@ -22,6 +22,7 @@ use crate::{
     conversion::ConvertErrorFromCpp,
     types::{Namespace, QualifiedName},
 };
+use autocxx_parser::IncludeCppConfig;
 use std::collections::HashMap;
 use syn::{Block, Expr, ExprCall, ForeignItem, Ident, ImplItem, ItemImpl, Stmt, Type};
 
@@ -130,11 +131,15 @@ impl<'a> ParseForeignMod<'a> {
     /// Indicate that all foreign mods and all impl blocks have been
     /// fed into us, and we should process that information to generate
     /// the resulting APIs.
-    pub(crate) fn finished(mut self, apis: &mut ApiVec<NullPhase>) {
+    pub(crate) fn finished(mut self, apis: &mut ApiVec<NullPhase>, config: &IncludeCppConfig) {
         apis.append(&mut self.ignored_apis);
         while !self.funcs_to_convert.is_empty() {
             let mut fun = self.funcs_to_convert.remove(0);
             fun.self_ty = self.method_receivers.get(&fun.ident).cloned();
+            // There's no type to which we could attach methods of blocked types
+            if matches!(&fun.self_ty, Some(ty) if config.is_on_blocklist(&ty.to_cpp_name())) {
+                continue;
+            }
             apis.push(UnanalyzedApi::Function {
                 name: ApiName::new_with_cpp_name(
                     &self.ns,
-- 
2.43.0


From cc63c69edef6b88e95e630ac7d36497c4322c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:51 +0000
Subject: [PATCH 08/27] fix: don't bind functions taking or returning
 references to array typedefs

---
 engine/src/conversion/analysis/type_converter.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/engine/src/conversion/analysis/type_converter.rs b/engine/src/conversion/analysis/type_converter.rs
index 78e9e00..595a5b1 100644
--- a/engine/src/conversion/analysis/type_converter.rs
+++ b/engine/src/conversion/analysis/type_converter.rs
@@ -205,6 +205,7 @@ impl<'a> TypeConverter<'a> {
                 ns,
                 &TypeConversionContext::WithinReference,
             )?;
+            Self::ensure_pointee_is_not_array(&elem.ty)?;
             // TODO - in the future, we should check if this is a rust::Str and throw
             // a wobbler if not. rust::Str should only be seen _by value_ in C++
             // headers; it manifests as &str in Rust but on the C++ side it must
@@ -231,6 +232,7 @@ impl<'a> TypeConverter<'a> {
                 ns,
                 &TypeConversionContext::WithinReference,
             )?;
+            Self::ensure_pointee_is_not_array(&innerty.ty)?;
             let mut ptr = ptr.clone();
             ptr.elem = innerty.ty;
             Ok(Annotated::new(
@@ -518,6 +520,7 @@ impl<'a> TypeConverter<'a> {
         Self::ensure_pointee_is_valid(&ptr)?;
         let innerty =
             self.convert_boxed_type(ptr.elem, ns, &TypeConversionContext::WithinReference)?;
+        Self::ensure_pointee_is_not_array(&innerty.ty)?;
         ptr.elem = innerty.ty;
         Ok(Annotated::new(
             Type::Ptr(ptr),
@@ -538,6 +541,14 @@ impl<'a> TypeConverter<'a> {
         }
     }
 
+    /// Checks a pointee or referent once any typedefs have been resolved.
+    fn ensure_pointee_is_not_array(pointee: &Type) -> Result<(), ConvertErrorFromCpp> {
+        match pointee {
+            Type::Array(..) => Err(ConvertErrorFromCpp::InvalidArrayPointee),
+            _ => Ok(()),
+        }
+    }
+
     fn get_templated_typename(
         &mut self,
         rs_definition: &Type,
-- 
2.43.0


From af82f98684609e8150c5bc3b1ebf0acbed59d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:13 +0000
Subject: [PATCH 09/27] fix: don't run a C++ destructor on a value parameter
 whose constructor panicked

---
 src/value_param.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/value_param.rs b/src/value_param.rs
index bb837f1..8899d78 100644
--- a/src/value_param.rs
+++ b/src/value_param.rs
@@ -250,6 +250,9 @@ pub struct ValueParamHandler<T, VP: ValueParam<T>> {
     // We can't populate this on 'new' because the object may move.
     // Hence this is an Option - it's None until populate is called.
     space: Option<VP::StackStorage>,
+    // Whether the parameter made it into `space`. Populating it runs arbitrary
+    // constructors; if one of them panics there's nothing there to drop.
+    populated: bool,
     _pinned: PhantomPinned,
 }
 
@@ -260,9 +263,10 @@ impl<T, VP: ValueParam<T>> ValueParamHandler<T, VP> {
     /// # Safety
     ///
     /// Callers must call [`populate`] exactly once prior to calling [`get_ptr`].
-    pub unsafe fn populate(self: Pin<&mut Self>, param: VP) {
+    pub unsafe fn populate(mut self: Pin<&mut Self>, param: VP) {
         // Structural pinning, as documented in [`std::pin`].
-        param.populate_stack_space(self.map_unchecked_mut(|s| &mut s.space))
+        param.populate_stack_space(self.as_mut().map_unchecked_mut(|s| &mut s.space));
+        self.get_unchecked_mut().populated = true;
     }
 
     /// Return a pointer to the underlying value which can be passed to C++.
@@ -284,6 +288,7 @@ impl<T, VP: ValueParam<T>> Default for ValueParamHandler<T, VP> {
     fn default() -> Self {
         Self {
             space: None,
+            populated: false,
             _pinned: PhantomPinned,
         }
     }
@@ -291,6 +296,9 @@ impl<T, VP: ValueParam<T>> Default for ValueParamHandler<T, VP> {
 
 impl<T, VP: ValueParam<T>> Drop for ValueParamHandler<T, VP> {
     fn drop(&mut self) {
+        if !self.populated {
+            return;
+        }
         if let Some(space) = self.space.as_mut() {
             unsafe { VP::do_drop(Pin::new_unchecked(space)) }
         }
-- 
2.43.0


From 7d3398c2374b3eeed60b2081806aeddbc385fb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:04 +0000
Subject: [PATCH 10/27] fix: as_mov of a null UniquePtr panics instead of
 passing C++ a null reference

---
 src/value_param.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/value_param.rs b/src/value_param.rs
index 8899d78..b9ae95a 100644
--- a/src/value_param.rs
+++ b/src/value_param.rs
@@ -211,6 +211,9 @@ pub fn as_mov<P: AsMove>(ptr: P) -> impl ValueParam<P::Target>
 where
     P::Target: MoveNew,
 {
+    // Moving out of a null UniquePtr would hand C++ a null reference, so
+    // panic here instead.
+    let _: &P::Target = &*ptr;
     ByNew(crate::moveit::new::mov(ptr))
 }
 
-- 
2.43.0


From 6bce958e4e481cd03884efcd7defb0117e64623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:09 +0000
Subject: [PATCH 11/27] fix: find ToCppString when a namespaced function takes
 a std::string by value

---
 engine/src/conversion/codegen_rs/function_wrapper_rs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/conversion/codegen_rs/function_wrapper_rs.rs b/engine/src/conversion/codegen_rs/function_wrapper_rs.rs
index ac461ba..eed7894 100644
--- a/engine/src/conversion/codegen_rs/function_wrapper_rs.rs
+++ b/engine/src/conversion/codegen_rs/function_wrapper_rs.rs
@@ -41,7 +41,7 @@ impl TypeConversionPolicy {
                 conversion_requires_unsafe: false,
             },
             RustConversionType::FromStr => RustParamConversion::Param {
-                ty: parse_quote! { impl ToCppString },
+                ty: parse_quote! { impl output::ToCppString },
                 local_variables: Vec::new(),
                 conversion: quote! ( #var .into_cpp() ),
                 conversion_requires_unsafe: false,
-- 
2.43.0


From dca79d4675865c28a08a6ea90fcb079c749efde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:09 +0000
Subject: [PATCH 12/27] fix: C++ wrapper of a nested type's static method names
 the type as C++ does

---
 engine/src/conversion/codegen_cpp/mod.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/engine/src/conversion/codegen_cpp/mod.rs b/engine/src/conversion/codegen_cpp/mod.rs
index 02c494f..2d7c00e 100644
--- a/engine/src/conversion/codegen_cpp/mod.rs
+++ b/engine/src/conversion/codegen_cpp/mod.rs
@@ -539,20 +539,11 @@ impl<'a> CppCodeGenerator<'a> {
                 }
             },
             CppFunctionBody::StaticMethodCall(ns, ty_id, fn_id) => {
-                let underlying_function_call = ns
-                    .into_iter()
-                    .cloned()
-                    .chain(
-                        [
-                            ty_id.to_string(),
-                            fn_id.to_string_for_cpp_generation().to_string(),
-                        ]
-                        .iter()
-                        .cloned(),
-                    )
-                    .join("::");
+                // The class may be nested in another.
+                let ty = self.namespaced_name(&QualifiedName::new(ns, ty_id.clone()));
+                let fn_name = fn_id.to_string_for_cpp_generation();
                 (
-                    format!("{underlying_function_call}({arg_list})"),
+                    format!("{ty}::{fn_name}({arg_list})"),
                     "".to_string(),
                     false,
                 )
-- 
2.43.0


From d8caeeee36df7edf4f4a5743b916170e6d88a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:09 +0000
Subject: [PATCH 13/27] fix: lifetimes for functions returning a reference,
 given a reference to any extern type

---
 engine/src/conversion/codegen_rs/lifetime.rs | 79 +++++++++++++-------
 1 file changed, 50 insertions(+), 29 deletions(-)

diff --git a/engine/src/conversion/codegen_rs/lifetime.rs b/engine/src/conversion/codegen_rs/lifetime.rs
index 9afa143..1f7d730 100644
--- a/engine/src/conversion/codegen_rs/lifetime.rs
+++ b/engine/src/conversion/codegen_rs/lifetime.rs
@@ -10,6 +10,7 @@ use crate::{
         function_wrapper::{RustConversionType, TypeConversionPolicy},
         ArgumentAnalysis, ReceiverMutability,
     },
+    known_types::known_types,
     minisyn::FnArg,
     types::QualifiedName,
 };
@@ -18,8 +19,8 @@ use proc_macro2::TokenStream;
 use quote::{quote, ToTokens};
 use std::borrow::Cow;
 use syn::{
-    parse_quote, punctuated::Punctuated, token::Comma, GenericArgument, PatType, Path, PathSegment,
-    ReturnType, Type, TypePath, TypeReference,
+    parse_quote, punctuated::Punctuated, token::Comma, GenericArgument, PatType, Path,
+    PathArguments, PathSegment, ReturnType, Type, TypePath, TypeReference,
 };
 
 /// Function which can add explicit lifetime parameters to function signatures
@@ -29,7 +30,8 @@ use syn::{
 ///    and the return type is some kind of reference - because lifetime elision
 ///    is not smart enough to see inside a Pin.
 /// 2) as a workaround for https://github.com/dtolnay/cxx/issues/1024, where the
-///    input parameter is a non-POD type but the output reference is a POD or
+///    input parameter is a reference to a type defined outside the bridge, which
+///    is any but a built-in one, but the output reference is to a POD or
 ///    built-in type
 /// 3) Any parameter is any form of reference, and we're returning an `impl New`
 ///    3a) an 'impl ValueParam' counts as a reference.
@@ -72,10 +74,10 @@ pub(crate) fn add_explicit_lifetime_if_necessary<'r>(
             ..
         })
     );
-    let non_pod_ref_param = reference_parameter_is_non_pod_reference(&params, non_pod_types);
-    let ret_type_pod = return_type_is_pod_or_known_type_reference(&ret_type, non_pod_types);
+    let extern_ref_param = any_parameter_is_extern_type_reference(&params);
+    let ret_type_pod = return_type_is_reference_to_pod_or_known_type(&ret_type, non_pod_types);
     let returning_impl_with_a_reference_param = return_type_is_impl && any_param_is_reference;
-    let hits_1024_bug = non_pod_ref_param && ret_type_pod;
+    let hits_1024_bug = extern_ref_param && ret_type_pod;
     if !(has_mutable_receiver
         || hits_1024_bug
         || returning_impl_with_a_reference_param
@@ -137,38 +139,57 @@ pub(crate) fn add_explicit_lifetime_if_necessary<'r>(
     }
 }
 
-fn reference_parameter_is_non_pod_reference(
-    params: &Punctuated<FnArg, Comma>,
-    non_pod_types: &HashSet<QualifiedName>,
-) -> bool {
-    params.iter().any(|param| match &param.0 {
-        syn::FnArg::Typed(PatType { ty, .. }) => match ty.as_ref() {
-            Type::Reference(TypeReference { elem, .. }) => match elem.as_ref() {
-                Type::Path(typ) => {
-                    let qn = QualifiedName::from_type_path(typ);
-                    non_pod_types.contains(&qn)
+/// The type behind a reference or a pinned mutable reference.
+fn referent(ty: &Type) -> Option<&Type> {
+    match ty {
+        Type::Reference(TypeReference { elem, .. }) => Some(elem),
+        Type::Path(typ) => {
+            let last = typ.path.segments.last()?;
+            match &last.arguments {
+                PathArguments::AngleBracketed(args) if last.ident == "Pin" => {
+                    match args.args.first()? {
+                        GenericArgument::Type(Type::Reference(TypeReference { elem, .. })) => {
+                            Some(elem)
+                        }
+                        _ => None,
+                    }
                 }
-                _ => false,
-            },
-            _ => false,
-        },
+                _ => None,
+            }
+        }
+        _ => None,
+    }
+}
+
+/// Whether `cxx` is told of this type as `type T = path::to::T`. It passes references
+/// to such types as plain pointers, so their lifetimes can't be elided.
+fn is_extern_type(ty: &Type) -> bool {
+    match ty {
+        Type::Path(typ) => {
+            let qn = QualifiedName::from_type_path(typ);
+            !known_types().is_known_type(&qn) || known_types().is_ctype(&qn)
+        }
+        _ => false,
+    }
+}
+
+fn any_parameter_is_extern_type_reference(params: &Punctuated<FnArg, Comma>) -> bool {
+    params.iter().any(|param| match &param.0 {
+        syn::FnArg::Typed(PatType { ty, .. }) => referent(ty).is_some_and(is_extern_type),
         _ => false,
     })
 }
 
-fn return_type_is_pod_or_known_type_reference(
+fn return_type_is_reference_to_pod_or_known_type(
     ret_type: &ReturnType,
     non_pod_types: &HashSet<QualifiedName>,
 ) -> bool {
     match ret_type {
-        ReturnType::Type(_, boxed_type) => match boxed_type.as_ref() {
-            Type::Reference(rtr) => match rtr.elem.as_ref() {
-                Type::Path(typ) => {
-                    let qn = QualifiedName::from_type_path(typ);
-                    !non_pod_types.contains(&qn)
-                }
-                _ => false,
-            },
+        ReturnType::Type(_, boxed_type) => match referent(boxed_type.as_ref()) {
+            Some(Type::Path(typ)) => {
+                let qn = QualifiedName::from_type_path(typ);
+                !non_pod_types.contains(&qn)
+            }
             _ => false,
         },
         _ => false,
-- 
2.43.0


From 074683ac56d7e11147b27109b2be6fcd555ea546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:51 +0000
Subject: [PATCH 14/27] fix: exported Rust types in mods and methods survive
 printing of the configuration

---
 parser/src/directives.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/src/directives.rs b/parser/src/directives.rs
index a76cb06..7347f2c 100644
--- a/parser/src/directives.rs
+++ b/parser/src/directives.rs
@@ -434,8 +434,8 @@ impl Directive for RustType {
         config: &mut IncludeCppConfig,
         _ident_span: &Span,
     ) -> ParseResult<()> {
-        let id: Ident = args.parse()?;
-        config.rust_types.push(RustPath::new_from_ident(id));
+        let path: RustPath = args.parse()?;
+        config.rust_types.push(path);
         Ok(())
     }
 
@@ -498,10 +498,11 @@ impl Directive for ExternRustFun {
         let path: RustPath = args.parse()?;
         args.parse::<syn::token::Comma>()?;
         let sig: syn::Signature = args.parse()?;
+        let has_receiver = sig.receiver().is_some();
         config.extern_rust_funs.push(RustFun {
             path,
             sig,
-            has_receiver: false,
+            has_receiver,
         });
         Ok(())
     }
-- 
2.43.0


From 9cd357c2a66dfca00e278bfd2b7ec93d8c62eff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:30 +0000
Subject: [PATCH 15/27] fix: find archived bindings although the code generator
 added discoveries to the configuration

---
 engine/src/output_generators.rs | 10 ++++++++++
 parser/src/config.rs            | 17 +++++++++++++++++
 parser/src/multi_bindings.rs    |  5 +++--
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/engine/src/output_generators.rs b/engine/src/output_generators.rs
index 09c143a..95dd89f 100644
--- a/engine/src/output_generators.rs
+++ b/engine/src/output_generators.rs
@@ -8,6 +8,7 @@
 
 use autocxx_parser::{IncludeCppConfig, MultiBindings};
 use proc_macro2::TokenStream;
+use std::collections::HashMap;
 
 /// Opaque structure representing the Rust which needs to be generated
 /// for a given `include_cpp!` macro. You will want to pass this into
@@ -23,7 +24,16 @@ pub struct RsOutput<'a> {
 /// environment variable.
 pub fn generate_rs_archive<'a>(rs_outputs: impl Iterator<Item = RsOutput<'a>>) -> String {
     let mut multi_bindings = MultiBindings::default();
+    let mut hashes = HashMap::new();
     for rs in rs_outputs {
+        // The macro can't tell apart two sections which differ only in what we discovered
+        // in the Rust code around them.
+        let hash = rs.config.get_hash();
+        let previous = hashes.insert(rs.config.get_hash_as_parsed(), hash);
+        assert!(
+            previous.is_none() || previous == Some(hash),
+            "Two identical include_cpp! sections need different bindings. Use name! to tell them apart."
+        );
         multi_bindings.insert(rs.config, rs.rs);
     }
     serde_json::to_string(&multi_bindings).expect("Unable to encode JSON archive")
diff --git a/parser/src/config.rs b/parser/src/config.rs
index 393810b..5cb0712 100644
--- a/parser/src/config.rs
+++ b/parser/src/config.rs
@@ -209,6 +209,14 @@ impl std::hash::Hash for ConcretesMap {
     }
 }
 
+/// Hash of an `include_cpp!` block as written. Not itself part of the configuration.
+#[derive(Debug, Default)]
+struct HashAsParsed(Option<u64>);
+
+impl Hash for HashAsParsed {
+    fn hash<H: Hasher>(&self, _state: &mut H) {}
+}
+
 #[derive(Debug, Default, Hash)]
 pub struct IncludeCppConfig {
     pub inclusions: Vec<String>,
@@ -228,6 +236,7 @@ pub struct IncludeCppConfig {
     pub concretes: ConcretesMap,
     pub externs: ExternCppTypeMap,
     pub opaquelist: Vec<String>,
+    hash_as_parsed: HashAsParsed,
 }
 
 impl Parse for IncludeCppConfig {
@@ -266,6 +275,7 @@ impl Parse for IncludeCppConfig {
                 break;
             }
         }
+        config.hash_as_parsed = HashAsParsed(Some(config.get_hash()));
         Ok(config)
     }
 }
@@ -405,6 +415,13 @@ impl IncludeCppConfig {
         s.finish()
     }
 
+    /// Get a hash of the contents of this `include_cpp!` block as it was written,
+    /// whatever the code generator discovered elsewhere and added since. That's all
+    /// that the macro can know.
+    pub fn get_hash_as_parsed(&self) -> u64 {
+        self.hash_as_parsed.0.unwrap_or_else(|| self.get_hash())
+    }
+
     /// In case there are multiple sets of ffi mods in a single binary,
     /// endeavor to return a name which can be used to make symbols
     /// unique.
diff --git a/parser/src/multi_bindings.rs b/parser/src/multi_bindings.rs
index 4ca86d9..ec46daf 100644
--- a/parser/src/multi_bindings.rs
+++ b/parser/src/multi_bindings.rs
@@ -36,12 +36,13 @@ pub enum MultiBindingsErr {
 impl MultiBindings {
     /// Insert some generated Rust bindings into this data structure.
     pub fn insert(&mut self, config: &IncludeCppConfig, bindings: TokenStream) {
-        self.0.insert(config.get_hash(), bindings.to_string());
+        self.0
+            .insert(config.get_hash_as_parsed(), bindings.to_string());
     }
 
     /// Retrieves the bindings corresponding to a given [`IncludeCppConfig`].
     pub fn get(&self, config: &IncludeCppConfig) -> Result<TokenStream, MultiBindingsErr> {
-        match self.0.get(&(config.get_hash())) {
+        match self.0.get(&config.get_hash_as_parsed()) {
             None => Err(MultiBindingsErr::MissingBindings),
             Some(bindings) => Ok(bindings
                 .parse()
-- 
2.43.0


From 694a2de1241d3b854fdb284800e4ce26ed4ad003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:00 +0000
Subject: [PATCH 16/27] fix: don't panic on an include_cpp! without generate
 directives inside a mod

---
 engine/src/parse_file.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/engine/src/parse_file.rs b/engine/src/parse_file.rs
index 9dd620c..7a27f6a 100644
--- a/engine/src/parse_file.rs
+++ b/engine/src/parse_file.rs
@@ -254,14 +254,11 @@ fn parse_file_contents(
             return Err(ParseError::MultipleModsForDynamicDiscovery);
         }
     }
-    let autocxx_seg_iterator = results.iter_mut().filter_map(|seg| match seg {
-        Segment::Autocxx(engine) => Some(engine),
-        _ => None,
-    });
-    for seg in autocxx_seg_iterator {
-        seg.config.confirm_complete();
+    let mut parsed_file = ParsedFile(results);
+    for engine in parsed_file.get_autocxxes_mut() {
+        engine.config.confirm_complete();
     }
-    Ok(ParsedFile(results))
+    Ok(parsed_file)
 }
 
 /// A Rust file parsed by autocxx. May contain zero or more autocxx 'engines',
-- 
2.43.0


From 8c912e97a05d237d6e9bb8aff5e3e424773a1e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 17/27] fix: gen: notice conflicting files even if the first
 one was already up to date

---
 gen/cmd/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gen/cmd/src/main.rs b/gen/cmd/src/main.rs
index be462a0..01b186e 100644
--- a/gen/cmd/src/main.rs
+++ b/gen/cmd/src/main.rs
@@ -438,15 +438,16 @@ impl FileWriter<'_> {
                 let mut existing_content = Vec::new();
                 let r = f.read_to_end(&mut existing_content);
                 if r.is_ok() && existing_content == content {
+                    self.written.insert(filename);
                     return Ok(()); // don't change timestamp on existing file unnecessarily
                 }
             }
         }
-        let mut f = File::create(&path).into_diagnostic()?;
-        f.write_all(content).into_diagnostic()?;
         if self.written.contains(&filename) {
             return Err(miette::Report::msg(format!("autocxx_gen would write two files entitled '{filename}' which would have conflicting contents. Consider using --generate-exact.")));
         }
+        let mut f = File::create(&path).into_diagnostic()?;
+        f.write_all(content).into_diagnostic()?;
         self.written.insert(filename);
         Ok(())
     }
-- 
2.43.0


From a5a771e55895efc63828ca2abbb195949d0bad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 18/27] fix: gen: depfiles for mixtures of absolute and
 relative paths, and paths with special characters

---
 gen/cmd/src/depfile.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/gen/cmd/src/depfile.rs b/gen/cmd/src/depfile.rs
index 315ff89..0569ace 100644
--- a/gen/cmd/src/depfile.rs
+++ b/gen/cmd/src/depfile.rs
@@ -51,14 +51,38 @@ impl Depfile {
 
     /// Return a string giving a relative path from the depfile.
     fn relativize(&self, path: &Path) -> String {
-        pathdiff::diff_paths(path, &self.depfile_dir)
-            .expect("Unable to make a relative path from the depfile's directory to the dependency")
+        let relative = pathdiff::diff_paths(path, &self.depfile_dir)
+            .or_else(|| {
+                // For instance, one of them is absolute and the other isn't.
+                let dir = canonicalize_dir(&self.depfile_dir).ok()?;
+                let path = canonicalize_dir(path.parent()?)
+                    .ok()?
+                    .join(path.file_name()?);
+                pathdiff::diff_paths(path, dir)
+            })
+            .expect("Unable to make a relative path from the depfile's directory to the dependency");
+        let relative = relative
             .to_str()
-            .expect("Unable to represent the file path in a UTF8 encoding")
-            .into()
+            .expect("Unable to represent the file path in a UTF8 encoding");
+        escape(relative)
     }
 }
 
+fn canonicalize_dir(dir: &Path) -> std::io::Result<PathBuf> {
+    if dir.as_os_str().is_empty() {
+        Path::new(".").canonicalize()
+    } else {
+        dir.canonicalize()
+    }
+}
+
+/// Spell a path such that make and ninja read it back as it is.
+fn escape(path: &str) -> String {
+    path.replace(' ', "\\ ")
+        .replace('#', "\\#")
+        .replace('$', "$$")
+}
+
 #[cfg(test)]
 mod tests {
     use std::{fs::File, io::Read};
-- 
2.43.0


From 51d9fd101b0805fe8ca434c17b2347a7ee54988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 19/27] fix: upcasts to (and abstractness of) base classes
 named by a typedef

---
 engine/src/conversion/analysis/pod/mod.rs        | 15 ++++++++++++---
 engine/src/conversion/analysis/type_converter.rs |  2 +-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/engine/src/conversion/analysis/pod/mod.rs b/engine/src/conversion/analysis/pod/mod.rs
index 7e22d80..5933d9d 100644
--- a/engine/src/conversion/analysis/pod/mod.rs
+++ b/engine/src/conversion/analysis/pod/mod.rs
@@ -150,7 +150,7 @@ fn analyze_struct(
 ) -> Result<Box<dyn Iterator<Item = Api<PodPhase>>>, ConvertErrorWithContext> {
     let id = name.name.get_final_ident();
     check_for_fatal_attrs(parse_callback_results, &name.name)?;
-    let bases = get_bases(&details.item);
+    let bases = get_bases(&details.item, type_converter);
     let mut field_deps = HashSet::new();
     let mut field_definition_deps = HashSet::new();
     let mut field_info = Vec::new();
@@ -274,7 +274,7 @@ fn get_struct_field_types(
 }
 
 /// Map to whether the bases are public.
-fn get_bases(item: &ItemStruct) -> HashMap<QualifiedName, bool> {
+fn get_bases(item: &ItemStruct, type_converter: &TypeConverter) -> HashMap<QualifiedName, bool> {
     item.fields
         .iter()
         .filter_map(|f| {
@@ -284,7 +284,16 @@ fn get_bases(item: &ItemStruct) -> HashMap<QualifiedName, bool> {
                     .ident
                     .as_ref()
                     .filter(|id| id.to_string().starts_with("_base"))
-                    .map(|_| (QualifiedName::from_type_path(typ), is_public)),
+                    .map(|_| {
+                        // The base may be named by a typedef.
+                        let base = QualifiedName::from_type_path(typ);
+                        match type_converter.resolve_typedef(&base) {
+                            Ok(Some(Type::Path(resolved))) => {
+                                (QualifiedName::from_type_path(resolved), is_public)
+                            }
+                            _ => (base, is_public),
+                        }
+                    }),
                 _ => None,
             }
         })
diff --git a/engine/src/conversion/analysis/type_converter.rs b/engine/src/conversion/analysis/type_converter.rs
index 595a5b1..f949707 100644
--- a/engine/src/conversion/analysis/type_converter.rs
+++ b/engine/src/conversion/analysis/type_converter.rs
@@ -479,7 +479,7 @@ impl<'a> TypeConverter<'a> {
         ))
     }
 
-    fn resolve_typedef<'b>(
+    pub(crate) fn resolve_typedef<'b>(
         &'b self,
         tn: &QualifiedName,
     ) -> Result<Option<&'b Type>, ConvertErrorFromCpp> {
-- 
2.43.0


From b91f23cad7dc1708e3dffcf911298192c3f156f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 20/27] fix: discover uses of ffi types and functions in all
 syntactic positions

---
 engine/src/ast_discoverer.rs | 352 +++++++++++++++++++++++++++--------
 1 file changed, 271 insertions(+), 81 deletions(-)

diff --git a/engine/src/ast_discoverer.rs b/engine/src/ast_discoverer.rs
index c3625b0..d305f91 100644
--- a/engine/src/ast_discoverer.rs
+++ b/engine/src/ast_discoverer.rs
@@ -16,11 +16,13 @@ use itertools::Itertools;
 use proc_macro2::Ident;
 use syn::visit_mut::{visit_type_mut, VisitMut};
 use syn::{
-    parse_quote, punctuated::Punctuated, AssocConst, AssocType, Attribute, Expr, ExprAssign,
-    ExprAwait, ExprBinary, ExprBlock, ExprBreak, ExprCast, ExprConst, ExprField, ExprGroup,
-    ExprLet, ExprParen, ExprReference, ExprTry, ExprUnary, ImplItem, Item, ItemEnum, ItemStruct,
-    LocalInit, Pat, PatReference, PatSlice, PatTuple, Path, ReturnType, Signature, Stmt, TraitItem,
-    Type, TypeArray, TypeGroup, TypeParamBound, TypeParen, TypePtr, TypeReference, TypeSlice,
+    parse_quote, punctuated::Punctuated, AngleBracketedGenericArguments, AssocConst, AssocType,
+    Attribute, Expr, ExprAssign, ExprAwait, ExprBinary, ExprBlock, ExprBreak, ExprCast, ExprConst,
+    ExprField, ExprGroup, ExprLet, ExprParen, ExprRawAddr, ExprReference, ExprTry, ExprUnary,
+    Field, ForeignItem, GenericParam, Generics, ImplItem, Item, ItemEnum, ItemStruct, LocalInit,
+    Pat, PatIdent, PatReference, PatSlice, PatTuple, Path, QSelf, ReturnType, Signature, Stmt,
+    TraitItem, Type, TypeArray, TypeGroup, TypeParamBound, TypeParen, TypePtr, TypeReference,
+    TypeSlice, WherePredicate,
 };
 use thiserror::Error;
 
@@ -50,6 +52,7 @@ impl Discoveries {
         let mut this_mod = PerModDiscoveries {
             discoveries: self,
             mod_path,
+            in_match_arm: false,
         };
         this_mod.search_item(item)
     }
@@ -72,6 +75,7 @@ impl Discoveries {
 struct PerModDiscoveries<'a> {
     discoveries: &'a mut Discoveries,
     mod_path: Option<RustPath>,
+    in_match_arm: bool,
 }
 
 impl PerModDiscoveries<'_> {
@@ -88,16 +92,7 @@ impl PerModDiscoveries<'_> {
                 for stmt in &fun.block.stmts {
                     self.search_stmt(stmt)?
                 }
-                self.search_return_type(&fun.sig.output)?;
-                for i in &fun.sig.inputs {
-                    match i {
-                        syn::FnArg::Receiver(_) => {}
-                        syn::FnArg::Typed(pt) => {
-                            self.search_pat(&pt.pat)?;
-                            self.search_type(&pt.ty)?;
-                        }
-                    }
-                }
+                self.search_signature(&fun.sig)?;
                 if Self::has_attr(&fun.attrs, EXTERN_RUST_FUN) {
                     self.discoveries.extern_rust_funs.push(RustFun {
                         path: self.deeper_path(&fun.sig.ident),
@@ -127,6 +122,11 @@ impl PerModDiscoveries<'_> {
                         _ => None,
                     },
                 };
+                self.search_generics(&imp.generics)?;
+                if let Some((_, trait_path, _)) = &imp.trait_ {
+                    self.search_trait_path(trait_path)?;
+                }
+                self.search_type(&imp.self_ty)?;
                 for item in &imp.items {
                     self.search_impl_item(item, receiver.as_ref())?
                 }
@@ -137,6 +137,7 @@ impl PerModDiscoveries<'_> {
                     let mut new_mod = PerModDiscoveries {
                         discoveries: self.discoveries,
                         mod_path,
+                        in_match_arm: false,
                     };
                     for item in items {
                         new_mod.search_item(item)?
@@ -144,27 +145,152 @@ impl PerModDiscoveries<'_> {
                 }
             }
             Item::Trait(tr) => {
+                self.search_generics(&tr.generics)?;
+                self.search_type_param_bounds(&tr.supertraits)?;
                 for item in &tr.items {
                     self.search_trait_item(item)?
                 }
             }
-            Item::Struct(ItemStruct { ident, attrs, .. })
-            | Item::Enum(ItemEnum { ident, attrs, .. })
-                if Self::has_attr(attrs, EXTERN_RUST_TYPE) =>
-            {
-                self.discoveries
-                    .extern_rust_types
-                    .push(self.deeper_path(ident));
+            Item::Struct(ItemStruct {
+                ident,
+                attrs,
+                generics,
+                fields,
+                ..
+            }) => {
+                self.search_generics(generics)?;
+                self.search_fields(fields.iter())?;
+                self.note_extern_rust_type(ident, attrs);
+            }
+            Item::Enum(ItemEnum {
+                ident,
+                attrs,
+                generics,
+                variants,
+                ..
+            }) => {
+                self.search_generics(generics)?;
+                for variant in variants {
+                    self.search_fields(variant.fields.iter())?;
+                    if let Some((_, discriminant)) = &variant.discriminant {
+                        self.search_expr(discriminant)?;
+                    }
+                }
+                self.note_extern_rust_type(ident, attrs);
+            }
+            Item::Union(un) => {
+                self.search_generics(&un.generics)?;
+                self.search_fields(un.fields.named.iter())?;
+            }
+            Item::Const(con) => {
+                self.search_type(&con.ty)?;
+                self.search_expr(&con.expr)?;
+            }
+            Item::Static(st) => {
+                self.search_type(&st.ty)?;
+                self.search_expr(&st.expr)?;
+            }
+            Item::Type(ty) => {
+                self.search_generics(&ty.generics)?;
+                self.search_type(&ty.ty)?;
+            }
+            Item::ForeignMod(fm) => {
+                for item in &fm.items {
+                    match item {
+                        ForeignItem::Fn(fun) => self.search_signature(&fun.sig)?,
+                        ForeignItem::Static(st) => self.search_type(&st.ty)?,
+                        _ => {}
+                    }
+                }
             }
             _ => {}
         }
         Ok(())
     }
 
+    fn note_extern_rust_type(&mut self, ident: &Ident, attrs: &[Attribute]) {
+        if Self::has_attr(attrs, EXTERN_RUST_TYPE) {
+            self.discoveries
+                .extern_rust_types
+                .push(self.deeper_path(ident));
+        }
+    }
+
+    fn search_fields<'a>(
+        &mut self,
+        fields: impl Iterator<Item = &'a Field>,
+    ) -> Result<(), DiscoveryErr> {
+        for f in fields {
+            self.search_type(&f.ty)?
+        }
+        Ok(())
+    }
+
+    fn search_signature(&mut self, sig: &Signature) -> Result<(), DiscoveryErr> {
+        self.search_generics(&sig.generics)?;
+        self.search_return_type(&sig.output)?;
+        for i in &sig.inputs {
+            match i {
+                syn::FnArg::Receiver(_) => {}
+                syn::FnArg::Typed(pt) => {
+                    self.search_pat(&pt.pat)?;
+                    self.search_type(&pt.ty)?;
+                }
+            }
+        }
+        Ok(())
+    }
+
+    fn search_generics(&mut self, generics: &Generics) -> Result<(), DiscoveryErr> {
+        for param in &generics.params {
+            match param {
+                GenericParam::Type(tp) => {
+                    self.search_type_param_bounds(&tp.bounds)?;
+                    if let Some(ty) = &tp.default {
+                        self.search_type(ty)?;
+                    }
+                }
+                GenericParam::Const(cp) => {
+                    self.search_type(&cp.ty)?;
+                    if let Some(expr) = &cp.default {
+                        self.search_expr(expr)?;
+                    }
+                }
+                GenericParam::Lifetime(_) => {}
+            }
+        }
+        if let Some(where_clause) = &generics.where_clause {
+            for predicate in &where_clause.predicates {
+                if let WherePredicate::Type(pt) = predicate {
+                    self.search_type(&pt.bounded_ty)?;
+                    self.search_type_param_bounds(&pt.bounds)?;
+                }
+            }
+        }
+        Ok(())
+    }
+
+    fn search_qself(&mut self, qself: &Option<QSelf>) -> Result<(), DiscoveryErr> {
+        if let Some(qself) = qself {
+            self.search_type(&qself.ty)?;
+        }
+        Ok(())
+    }
+
+    /// A path to a trait. The trait itself can't be a C++ item,
+    /// but its generic arguments can.
+    fn search_trait_path(&mut self, path: &Path) -> Result<(), DiscoveryErr> {
+        for seg in path.segments.iter() {
+            self.search_path_arguments(&seg.arguments)?;
+        }
+        Ok(())
+    }
+
     fn search_path(&mut self, path: &Path) -> Result<(), DiscoveryErr> {
         let mut seg_iter = path.segments.iter();
         if let Some(first_seg) = seg_iter.next() {
-            if first_seg.ident == "ffi" {
+            // A plain 'ffi' is not a path to anything within that mod.
+            if first_seg.ident == "ffi" && path.segments.len() > 1 {
                 self.discoveries
                     .cpp_list
                     .insert(seg_iter.map(|seg| seg.ident.to_string()).join("::"));
@@ -177,10 +303,27 @@ impl PerModDiscoveries<'_> {
     }
 
     fn search_trait_item(&mut self, itm: &TraitItem) -> Result<(), DiscoveryErr> {
-        if let TraitItem::Fn(itm) = itm {
-            if let Some(block) = &itm.default {
-                self.search_stmts(block.stmts.iter())?
+        match itm {
+            TraitItem::Fn(itm) => {
+                self.search_signature(&itm.sig)?;
+                if let Some(block) = &itm.default {
+                    self.search_stmts(block.stmts.iter())?
+                }
             }
+            TraitItem::Const(itm) => {
+                self.search_type(&itm.ty)?;
+                if let Some((_, expr)) = &itm.default {
+                    self.search_expr(expr)?;
+                }
+            }
+            TraitItem::Type(itm) => {
+                self.search_generics(&itm.generics)?;
+                self.search_type_param_bounds(&itm.bounds)?;
+                if let Some((_, ty)) = &itm.default {
+                    self.search_type(ty)?;
+                }
+            }
+            _ => {}
         }
         Ok(())
     }
@@ -198,8 +341,11 @@ impl PerModDiscoveries<'_> {
     fn search_stmt(&mut self, stmt: &Stmt) -> Result<(), DiscoveryErr> {
         match stmt {
             Stmt::Local(lcl) => {
-                if let Some(LocalInit { expr, .. }) = &lcl.init {
-                    self.search_expr(expr)?
+                if let Some(LocalInit { expr, diverge, .. }) = &lcl.init {
+                    self.search_expr(expr)?;
+                    if let Some((_, diverge)) = diverge {
+                        self.search_expr(diverge)?;
+                    }
                 }
                 self.search_pat(&lcl.pat)
             }
@@ -212,6 +358,7 @@ impl PerModDiscoveries<'_> {
     fn search_expr(&mut self, expr: &Expr) -> Result<(), DiscoveryErr> {
         match expr {
             Expr::Path(exp) => {
+                self.search_qself(&exp.qself)?;
                 self.search_path(&exp.path)?;
             }
             Expr::Macro(_) | Expr::Infer(_) => {}
@@ -231,9 +378,9 @@ impl PerModDiscoveries<'_> {
             Expr::Break(ExprBreak {
                 expr: Some(expr), ..
             })
-            | Expr::Cast(ExprCast { expr, .. })
             | Expr::Group(ExprGroup { expr, .. })
             | Expr::Paren(ExprParen { expr, .. })
+            | Expr::RawAddr(ExprRawAddr { expr, .. })
             | Expr::Reference(ExprReference { expr, .. })
             | Expr::Try(ExprTry { expr, .. })
             | Expr::Unary(ExprUnary { expr, .. }) => self.search_expr(expr)?,
@@ -241,12 +388,23 @@ impl PerModDiscoveries<'_> {
                 self.search_expr(&exc.func)?;
                 self.search_exprs(exc.args.iter())?;
             }
-            Expr::Closure(cls) => self.search_expr(&cls.body)?,
+            Expr::Cast(ExprCast { expr, ty, .. }) => {
+                self.search_expr(expr)?;
+                self.search_type(ty)?;
+            }
+            Expr::Closure(cls) => {
+                for input in &cls.inputs {
+                    self.search_pat(input)?;
+                }
+                self.search_return_type(&cls.output)?;
+                self.search_expr(&cls.body)?;
+            }
             Expr::Continue(_)
             | Expr::Lit(_)
             | Expr::Break(ExprBreak { expr: None, .. })
             | Expr::Verbatim(_) => {}
             Expr::ForLoop(fl) => {
+                self.search_pat(&fl.pat)?;
                 self.search_expr(&fl.expr)?;
                 self.search_stmts(fl.body.stmts.iter())?;
             }
@@ -269,6 +427,9 @@ impl PerModDiscoveries<'_> {
             Expr::Match(exm) => {
                 self.search_expr(&exm.expr)?;
                 for a in &exm.arms {
+                    let outer = std::mem::replace(&mut self.in_match_arm, true);
+                    self.search_pat(&a.pat)?;
+                    self.in_match_arm = outer;
                     self.search_expr(&a.body)?;
                     if let Some((_, guard)) = &a.guard {
                         self.search_expr(guard)?;
@@ -277,6 +438,9 @@ impl PerModDiscoveries<'_> {
             }
             Expr::MethodCall(mtc) => {
                 self.search_expr(&mtc.receiver)?;
+                if let Some(turbofish) = &mtc.turbofish {
+                    self.search_generic_arguments(turbofish)?;
+                }
                 self.search_exprs(mtc.args.iter())?;
             }
             Expr::Range(exr) => {
@@ -293,6 +457,8 @@ impl PerModDiscoveries<'_> {
                 }
             }
             Expr::Struct(exst) => {
+                self.search_qself(&exst.qself)?;
+                self.search_path(&exst.path)?;
                 for f in &exst.fields {
                     self.search_expr(&f.expr)?;
                 }
@@ -333,29 +499,41 @@ impl PerModDiscoveries<'_> {
         impl_item: &ImplItem,
         receiver: Option<&RustPath>,
     ) -> Result<(), DiscoveryErr> {
-        if let ImplItem::Fn(itm) = impl_item {
-            if Self::has_attr(&itm.attrs, EXTERN_RUST_FUN) {
-                if self.mod_path.is_some() {
-                    return Err(DiscoveryErr::FoundExternRustFunWithinMod);
-                }
-                if let Some(receiver) = receiver {
-                    // We have a method which we want to put into the cxx::bridge's
-                    // "extern Rust" block.
-                    let sig = add_receiver(&itm.sig, receiver.get_final_ident())?;
-                    assert!(receiver.len() == 1);
-                    self.discoveries.extern_rust_funs.push(RustFun {
-                        path: self.deeper_path(&itm.sig.ident),
-                        sig,
-                        has_receiver: true,
-                    });
-                    self.discoveries.extern_rust_types.push(receiver.clone())
-                } else {
-                    return Err(DiscoveryErr::FoundExternRustFunOnTypeWithoutClearReceiver);
+        match impl_item {
+            ImplItem::Fn(itm) => {
+                if Self::has_attr(&itm.attrs, EXTERN_RUST_FUN) {
+                    if self.mod_path.is_some() {
+                        return Err(DiscoveryErr::FoundExternRustFunWithinMod);
+                    }
+                    if let Some(receiver) = receiver {
+                        // We have a method which we want to put into the cxx::bridge's
+                        // "extern Rust" block.
+                        let sig = add_receiver(&itm.sig, receiver.get_final_ident())?;
+                        assert!(receiver.len() == 1);
+                        self.discoveries.extern_rust_funs.push(RustFun {
+                            path: self.deeper_path(&itm.sig.ident),
+                            sig,
+                            has_receiver: true,
+                        });
+                        self.discoveries.extern_rust_types.push(receiver.clone())
+                    } else {
+                        return Err(DiscoveryErr::FoundExternRustFunOnTypeWithoutClearReceiver);
+                    }
+                }
+                self.search_signature(&itm.sig)?;
+                for stmt in &itm.block.stmts {
+                    self.search_stmt(stmt)?
                 }
             }
-            for stmt in &itm.block.stmts {
-                self.search_stmt(stmt)?
+            ImplItem::Const(itm) => {
+                self.search_type(&itm.ty)?;
+                self.search_expr(&itm.expr)?;
+            }
+            ImplItem::Type(itm) => {
+                self.search_generics(&itm.generics)?;
+                self.search_type(&itm.ty)?;
             }
+            _ => {}
         }
         Ok(())
     }
@@ -369,6 +547,10 @@ impl PerModDiscoveries<'_> {
                 Ok(())
             }
             Pat::Reference(PatReference { pat, .. }) => self.search_pat(pat),
+            Pat::Ident(PatIdent {
+                subpat: Some((_, subpat)),
+                ..
+            }) => self.search_pat(subpat),
             Pat::Ident(_) | Pat::Lit(_) | Pat::Macro(_) | Pat::Range(_) | Pat::Rest(_) => Ok(()),
             Pat::Paren(paren) => self.search_pat(&paren.pat),
             Pat::Or(pator) => {
@@ -377,7 +559,13 @@ impl PerModDiscoveries<'_> {
                 }
                 Ok(())
             }
-            Pat::Path(pp) => self.search_path(&pp.path),
+            // In match arms, this is most likely to be a variant of an enum,
+            // which isn't an item for which we can generate bindings.
+            Pat::Path(_) if self.in_match_arm => Ok(()),
+            Pat::Path(pp) => {
+                self.search_qself(&pp.qself)?;
+                self.search_path(&pp.path)
+            }
             Pat::Slice(PatSlice { elems, .. }) | Pat::Tuple(PatTuple { elems, .. }) => {
                 for case in elems {
                     self.search_pat(case)?;
@@ -409,8 +597,11 @@ impl PerModDiscoveries<'_> {
 
     fn search_type(&mut self, ty: &Type) -> Result<(), DiscoveryErr> {
         match ty {
-            Type::Array(TypeArray { elem, .. })
-            | Type::Group(TypeGroup { elem, .. })
+            Type::Array(TypeArray { elem, len, .. }) => {
+                self.search_type(elem)?;
+                self.search_expr(len)?;
+            }
+            Type::Group(TypeGroup { elem, .. })
             | Type::Paren(TypeParen { elem, .. })
             | Type::Ptr(TypePtr { elem, .. })
             | Type::Reference(TypeReference { elem, .. })
@@ -421,15 +612,12 @@ impl PerModDiscoveries<'_> {
                 }
                 self.search_return_type(&tf.output)?;
             }
-            Type::ImplTrait(tyit) => {
-                for b in &tyit.bounds {
-                    if let syn::TypeParamBound::Trait(tyt) = b {
-                        self.search_path(&tyt.path)?
-                    }
-                }
-            }
+            Type::ImplTrait(tyit) => self.search_type_param_bounds(&tyit.bounds)?,
             Type::Infer(_) | Type::Macro(_) | Type::Never(_) => {}
-            Type::Path(typ) => self.search_path(&typ.path)?,
+            Type::Path(typ) => {
+                self.search_qself(&typ.qself)?;
+                self.search_path(&typ.path)?;
+            }
             Type::TraitObject(tto) => self.search_type_param_bounds(&tto.bounds)?,
             Type::Tuple(tt) => {
                 for e in &tt.elems {
@@ -447,7 +635,7 @@ impl PerModDiscoveries<'_> {
     ) -> Result<(), DiscoveryErr> {
         for b in bounds {
             if let syn::TypeParamBound::Trait(tpbt) = b {
-                self.search_path(&tpbt.path)?
+                self.search_trait_path(&tpbt.path)?
             }
         }
         Ok(())
@@ -467,25 +655,7 @@ impl PerModDiscoveries<'_> {
     ) -> Result<(), DiscoveryErr> {
         match arguments {
             syn::PathArguments::None => {}
-            syn::PathArguments::AngleBracketed(paab) => {
-                for arg in &paab.args {
-                    match arg {
-                        syn::GenericArgument::Lifetime(_) => {}
-                        syn::GenericArgument::Type(ty)
-                        | syn::GenericArgument::AssocType(AssocType { ty, .. }) => {
-                            self.search_type(ty)?
-                        }
-                        syn::GenericArgument::Constraint(c) => {
-                            self.search_type_param_bounds(&c.bounds)?
-                        }
-                        syn::GenericArgument::Const(value)
-                        | syn::GenericArgument::AssocConst(AssocConst { value, .. }) => {
-                            self.search_expr(value)?
-                        }
-                        _ => {}
-                    }
-                }
-            }
+            syn::PathArguments::AngleBracketed(paab) => self.search_generic_arguments(paab)?,
             syn::PathArguments::Parenthesized(pas) => {
                 self.search_return_type(&pas.output)?;
                 for t in &pas.inputs {
@@ -496,6 +666,26 @@ impl PerModDiscoveries<'_> {
         Ok(())
     }
 
+    fn search_generic_arguments(
+        &mut self,
+        arguments: &AngleBracketedGenericArguments,
+    ) -> Result<(), DiscoveryErr> {
+        for arg in &arguments.args {
+            match arg {
+                syn::GenericArgument::Lifetime(_) => {}
+                syn::GenericArgument::Type(ty)
+                | syn::GenericArgument::AssocType(AssocType { ty, .. }) => self.search_type(ty)?,
+                syn::GenericArgument::Constraint(c) => self.search_type_param_bounds(&c.bounds)?,
+                syn::GenericArgument::Const(value)
+                | syn::GenericArgument::AssocConst(AssocConst { value, .. }) => {
+                    self.search_expr(value)?
+                }
+                _ => {}
+            }
+        }
+        Ok(())
+    }
+
     fn has_attr(attrs: &[Attribute], attr_name: &str) -> bool {
         attrs.iter().any(|attr| {
             attr.path()
-- 
2.43.0


From d91dc76e4fb4f6dfd44e3c162b40a8e34f23a45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 21/27] fix: don't offer upcasts to direct base classes which
 C++ finds ambiguous

---
 engine/src/conversion/analysis/casts.rs | 35 ++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/engine/src/conversion/analysis/casts.rs b/engine/src/conversion/analysis/casts.rs
index e1196ef..df4b70a 100644
--- a/engine/src/conversion/analysis/casts.rs
+++ b/engine/src/conversion/analysis/casts.rs
@@ -7,6 +7,8 @@
 // except according to those terms.
 
 use crate::minisyn::FnArg;
+use indexmap::map::IndexMap as HashMap;
+use indexmap::set::IndexSet as HashSet;
 use itertools::Itertools;
 use quote::quote;
 use syn::parse_quote;
@@ -32,6 +34,13 @@ use super::{
 };
 
 pub(crate) fn add_casts(apis: ApiVec<PodPhase>) -> ApiVec<PodPhase> {
+    let bases: HashMap<QualifiedName, HashSet<QualifiedName>> = apis
+        .iter()
+        .filter_map(|api| match api {
+            Api::Struct { name, analysis, .. } => Some((name.name.clone(), analysis.bases.clone())),
+            _ => None,
+        })
+        .collect();
     apis.into_iter()
         .flat_map(|api| {
             let mut resultant_apis = match api {
@@ -39,7 +48,7 @@ pub(crate) fn add_casts(apis: ApiVec<PodPhase>) -> ApiVec<PodPhase> {
                     ref name,
                     details: _,
                     ref analysis,
-                } => create_casts(&name.name, analysis).collect_vec(),
+                } => create_casts(&name.name, analysis, &bases).collect_vec(),
                 _ => Vec::new(),
             };
             resultant_apis.push(api);
@@ -51,15 +60,39 @@ pub(crate) fn add_casts(apis: ApiVec<PodPhase>) -> ApiVec<PodPhase> {
 fn create_casts<'a>(
     name: &'a QualifiedName,
     analysis: &'a PodAnalysis,
+    all_bases: &'a HashMap<QualifiedName, HashSet<QualifiedName>>,
 ) -> impl Iterator<Item = Api<PodPhase>> + 'a {
     // Create casts only to base classes which are on the allowlist
     // because otherwise we won't know for sure whether they're abstract or not.
     analysis
         .castable_bases
         .iter()
+        .filter(move |base| !is_ambiguous_base(base, analysis, all_bases))
         .flat_map(move |base| cast_types().map(|mutable| create_cast(name, base, mutable)))
 }
 
+/// Whether a direct base class is also a base of another direct base class,
+/// such that C++ would find a cast to it to be ambiguous.
+fn is_ambiguous_base(
+    base: &QualifiedName,
+    analysis: &PodAnalysis,
+    all_bases: &HashMap<QualifiedName, HashSet<QualifiedName>>,
+) -> bool {
+    let mut to_do = analysis.bases.iter().collect_vec();
+    let mut seen = HashSet::new();
+    while let Some(derived) = to_do.pop() {
+        for indirect_base in all_bases.get(derived).into_iter().flatten() {
+            if indirect_base == base {
+                return true;
+            }
+            if seen.insert(indirect_base) {
+                to_do.push(indirect_base);
+            }
+        }
+    }
+    false
+}
+
 /// Iterate through the types of cast we should make.
 fn cast_types() -> impl Iterator<Item = CastMutability> {
     if SUPPORT_MUTABLE_CASTS {
-- 
2.43.0


From 68cd32c40f586e5326bc5642b3fd50858ea99a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:53 +0000
Subject: [PATCH 22/27] fix: allow unique_ptr and move-only parameters in
 virtual methods of classes with Rust subclasses

---
 .../analysis/fun/function_wrapper.rs           |  1 +
 .../codegen_cpp/function_wrapper_cpp.rs        | 18 +++++++++++++++++-
 engine/src/conversion/codegen_cpp/mod.rs       |  2 +-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/function_wrapper.rs b/engine/src/conversion/analysis/fun/function_wrapper.rs
index ea5521f..9c760e8 100644
--- a/engine/src/conversion/analysis/fun/function_wrapper.rs
+++ b/engine/src/conversion/analysis/fun/function_wrapper.rs
@@ -37,6 +37,7 @@ impl CppConversionType {
     fn inverse(&self) -> Self {
         match self {
             CppConversionType::None => CppConversionType::None,
+            CppConversionType::Move => CppConversionType::Move,
             CppConversionType::FromUniquePtrToValue | CppConversionType::FromPtrToValue => {
                 CppConversionType::FromValueToUniquePtr
             }
diff --git a/engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs b/engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs
index 2a19f39..4a1e7bf 100644
--- a/engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs
+++ b/engine/src/conversion/codegen_cpp/function_wrapper_cpp.rs
@@ -72,6 +72,18 @@ impl TypeConversionPolicy {
         ))
     }
 
+    /// How C++ code which received this parameter passes it on, unconverted,
+    /// to another C++ function with the same parameter. Values are moved, since
+    /// they might be of move-only types.
+    pub(super) fn cpp_forward(&self, var_name: &str) -> String {
+        match self.cpp_conversion {
+            CppConversionType::Move
+            | CppConversionType::FromUniquePtrToValue
+            | CppConversionType::FromPtrToValue => format!("std::move({var_name})"),
+            _ => var_name.to_string(),
+        }
+    }
+
     pub(super) fn cpp_conversion(
         &self,
         var_name: &str,
@@ -92,7 +104,11 @@ impl TypeConversionPolicy {
             CppConversionType::FromValueToUniquePtr => Some(format!(
                 "std::make_unique<{}>({})",
                 self.unconverted_type(cpp_name_map)?,
-                var_name
+                if is_return {
+                    var_name.to_string()
+                } else {
+                    format!("std::move({var_name})")
+                }
             )),
             CppConversionType::FromPtrToValue => {
                 let dereference = format!("*{var_name}");
diff --git a/engine/src/conversion/codegen_cpp/mod.rs b/engine/src/conversion/codegen_cpp/mod.rs
index 2d7c00e..b236807 100644
--- a/engine/src/conversion/codegen_cpp/mod.rs
+++ b/engine/src/conversion/codegen_cpp/mod.rs
@@ -451,7 +451,7 @@ impl<'a> CppCodeGenerator<'a> {
                 ConversionDirection::RustCallsCpp => {
                     conv.cpp_conversion(&get_arg_name(counter), &self.original_name_map, false)
                 }
-                ConversionDirection::CppCallsCpp => Ok(Some(get_arg_name(counter))),
+                ConversionDirection::CppCallsCpp => Ok(Some(conv.cpp_forward(&get_arg_name(counter)))),
                 ConversionDirection::CppCallsRust => conv.inverse().cpp_conversion(
                     &get_arg_name(counter),
                     &self.original_name_map,
-- 
2.43.0


From 13cfb8d44400f39b20673c95bae14e414c2627e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:09 +0000
Subject: [PATCH 23/27] fix: don't take methods called like their class plus a
 number for constructors

---
 engine/src/conversion/analysis/fun/mod.rs | 25 ++++++-----------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/mod.rs b/engine/src/conversion/analysis/fun/mod.rs
index 6ad07ef..a832dfc 100644
--- a/engine/src/conversion/analysis/fun/mod.rs
+++ b/engine/src/conversion/analysis/fun/mod.rs
@@ -937,9 +937,7 @@ impl<'a> FnAnalyzer<'a> {
                     rust_name,
                 )
             } else {
-                let method_kind = if let Some(constructor_suffix) =
-                    constructor_with_suffix(&rust_name, nested_type_ident)
-                {
+                let method_kind = if rust_name == nested_type_ident {
                     // It's a constructor. bindgen generates
                     // fn Type(this: *mut Type, ...args)
                     // We want
@@ -949,9 +947,11 @@ impl<'a> FnAnalyzer<'a> {
                     // fn make_unique(...args) -> Type
                     // which later code will convert to
                     // fn make_unique(...args) -> UniquePtr<Type>
-                    // If there are multiple constructors, bindgen generates
-                    // new, new1, new2 etc. and we'll keep those suffixes.
-                    rust_name = format!("new{constructor_suffix}");
+                    // If there are multiple constructors, bindgen adds suffixes
+                    // but those aren't present in the original C++ name which
+                    // we're using here. (Methods may be called the name of
+                    // the type followed by something, such as a number.)
+                    rust_name = "new".to_string();
                     MethodKind::Constructor {
                         is_default: matches!(
                             fun.special_member,
@@ -2205,19 +2205,6 @@ fn special_member_to_string(special_member: SpecialMemberKind) -> &'static str {
     }
 }
 
-/// Attempts to determine whether this function name is a constructor, and if so,
-/// returns the suffix.
-fn constructor_with_suffix<'a>(rust_name: &'a str, nested_type_ident: &str) -> Option<&'a str> {
-    let suffix = rust_name.strip_prefix(nested_type_ident);
-    suffix.and_then(|suffix| {
-        if suffix.is_empty() || suffix.parse::<u32>().is_ok() {
-            Some(suffix)
-        } else {
-            None
-        }
-    })
-}
-
 impl Api<FnPhase> {
     pub(crate) fn name_for_allowlist(&self) -> QualifiedName {
         match &self {
-- 
2.43.0


From 2ac43eb22eb2d0d3026a9282b23a987805014ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:09 +0000
Subject: [PATCH 24/27] fix: keep the names of methods ending in an underscore

---
 engine/src/conversion/analysis/fun/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/mod.rs b/engine/src/conversion/analysis/fun/mod.rs
index a832dfc..5b9d204 100644
--- a/engine/src/conversion/analysis/fun/mod.rs
+++ b/engine/src/conversion/analysis/fun/mod.rs
@@ -789,10 +789,11 @@ impl<'a> FnAnalyzer<'a> {
         let ideal_rust_name = match cpp_original_name {
             None => initial_rust_name, // case 1
             Some(cpp_original_name) => {
-                if initial_rust_name.ends_with('_') {
+                let keyword_free_name = format!("{}_", cpp_original_name.to_string_for_rust_name());
+                if initial_rust_name == keyword_free_name {
                     initial_rust_name // case 2
                 } else if validate_ident_ok_for_rust(cpp_original_name).is_err() {
-                    format!("{}_", cpp_original_name.to_string_for_rust_name()) // case 5
+                    keyword_free_name // case 5
                 } else {
                     cpp_original_name.to_string_for_rust_name() // cases 3, 4, 6
                 }
-- 
2.43.0


From d1191cc6da1e1e194f141fdc21906ccde126f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:10 +0000
Subject: [PATCH 25/27] fix: synthesize members of classes whose name ends in
 an underscore

---
 engine/src/conversion/analysis/allocators.rs      |  5 ++++-
 .../analysis/fun/bridge_name_tracker.rs           |  2 ++
 engine/src/conversion/analysis/fun/mod.rs         | 15 ++++++++++-----
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/engine/src/conversion/analysis/allocators.rs b/engine/src/conversion/analysis/allocators.rs
index 1c52431..3bab466 100644
--- a/engine/src/conversion/analysis/allocators.rs
+++ b/engine/src/conversion/analysis/allocators.rs
@@ -104,7 +104,10 @@ pub(crate) fn get_free_name(ty_name: &QualifiedName) -> QualifiedName {
 }
 
 fn get_name(ty_name: &QualifiedName, label: &str) -> QualifiedName {
-    let name = format!("{}_{}", ty_name.get_final_item(), label);
+    // Double underscores are not OK for cxx.
+    let ty = ty_name.get_final_item();
+    let joiner = if ty.ends_with('_') { "" } else { "_" };
+    let name = format!("{ty}{joiner}{label}");
     let name_id = make_ident(name);
     QualifiedName::new(ty_name.get_namespace(), name_id)
 }
diff --git a/engine/src/conversion/analysis/fun/bridge_name_tracker.rs b/engine/src/conversion/analysis/fun/bridge_name_tracker.rs
index 4224fcb..bd4b869 100644
--- a/engine/src/conversion/analysis/fun/bridge_name_tracker.rs
+++ b/engine/src/conversion/analysis/fun/bridge_name_tracker.rs
@@ -94,6 +94,8 @@ impl BridgeNameTracker {
         let prefix = ns
             .iter()
             .chain(type_name.iter().map(|s| s.as_str()))
+            // Double underscores are not OK for cxx.
+            .map(|s| s.trim_end_matches('_'))
             .chain(std::iter::once(found_name))
             .join("_");
         let count = self
diff --git a/engine/src/conversion/analysis/fun/mod.rs b/engine/src/conversion/analysis/fun/mod.rs
index 5b9d204..345cf1c 100644
--- a/engine/src/conversion/analysis/fun/mod.rs
+++ b/engine/src/conversion/analysis/fun/mod.rs
@@ -912,6 +912,10 @@ impl<'a> FnAnalyzer<'a> {
                     )
                 }
             } else if matches!(fun.special_member, Some(SpecialMemberKind::Destructor)) {
+                if let Some(suffix) = rust_name.strip_prefix(type_ident) {
+                    // Double underscores are not OK for cxx.
+                    rust_name = format!("{}{suffix}", type_ident.trim_end_matches('_'));
+                }
                 rust_name = predetermined_rust_name
                     .unwrap_or_else(|| self.get_overload_name(ns, type_ident, rust_name));
                 let error_context = self.error_context_for_method(&self_ty, &rust_name);
@@ -2140,11 +2144,12 @@ impl<'a> FnAnalyzer<'a> {
         inputs: Punctuated<FnArg, Comma>,
     ) {
         let self_ty = items_found.name.as_ref().unwrap();
-        let ident = make_ident(self.config.uniquify_name_per_mod(&format!(
-            "{}_synthetic_{}",
-            self_ty.name.get_final_item(),
-            label
-        )));
+        // Double underscores are not OK for cxx.
+        let type_name = self_ty.name.get_final_item().trim_end_matches('_');
+        let ident = make_ident(
+            self.config
+                .uniquify_name_per_mod(&format!("{type_name}_synthetic_{label}")),
+        );
         let cpp_name = if matches!(special_member, SpecialMemberKind::DefaultConstructor) {
             // Constructors (other than move or copy) are identified in `analyze_foreign_fn` by
             // being suffixed with the cpp_name, so we have to produce that.
-- 
2.43.0


From 7dc8e772e3dc7ee0bf88a3032c91eefe70f9c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:10 +0000
Subject: [PATCH 26/27] fix: distinct wrapper names for functions differing by
 a trailing underscore

---
 engine/src/conversion/analysis/fun/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/engine/src/conversion/analysis/fun/mod.rs b/engine/src/conversion/analysis/fun/mod.rs
index 345cf1c..f44a6ca 100644
--- a/engine/src/conversion/analysis/fun/mod.rs
+++ b/engine/src/conversion/analysis/fun/mod.rs
@@ -1323,10 +1323,14 @@ impl<'a> FnAnalyzer<'a> {
             } else {
                 "_"
             };
-            cxxbridge_name = make_ident(
-                self.config
-                    .uniquify_name_per_mod(&format!("{cxxbridge_name}{joiner}autocxx_wrapper")),
+            // Functions whose names differ only by a trailing underscore would otherwise
+            // get the same name here.
+            let wrapper_name = self.get_cxx_bridge_name(
+                None,
+                &format!("{cxxbridge_name}{joiner}autocxx_wrapper"),
+                ns,
             );
+            cxxbridge_name = make_ident(self.config.uniquify_name_per_mod(&wrapper_name));
             let (payload, cpp_function_kind) = match fun.synthetic_cpp.as_ref().cloned() {
                 Some((payload, cpp_function_kind)) => (payload, cpp_function_kind),
                 None => match kind {
-- 
2.43.0


From 4b97a25d4ded7f8cdfdc650fa8fcf6991a452950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:10 +0000
Subject: [PATCH 27/27] fix: allow overriding virtual methods whose name ends
 in an underscore

---
 engine/src/conversion/api.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/engine/src/conversion/api.rs b/engine/src/conversion/api.rs
index 80c8b20..61a1914 100644
--- a/engine/src/conversion/api.rs
+++ b/engine/src/conversion/api.rs
@@ -318,17 +318,26 @@ impl SubclassName {
         QualifiedName::new(
             sup.get_namespace(),
             make_ident(format!(
-                "{}_{}_trait_item",
+                "{}_{}",
                 sup.get_final_item(),
-                method_name
+                Self::suffix_method_name(method_name, "trait_item")
             )),
         )
     }
     // TODO this and the following should probably include both class name and method name
     pub(crate) fn get_super_fn_name(superclass_namespace: &Namespace, id: &str) -> QualifiedName {
-        let id = make_ident(format!("{id}_super"));
+        let id = make_ident(Self::suffix_method_name(id, "super"));
         QualifiedName::new(superclass_namespace, id)
     }
+    /// Double underscores are not OK for cxx, so for a method called `type_`
+    /// this gives `type_super_` instead of `type__super`.
+    fn suffix_method_name(method_name: &str, suffix: &str) -> String {
+        if method_name.ends_with('_') {
+            format!("{method_name}{suffix}_")
+        } else {
+            format!("{method_name}_{suffix}")
+        }
+    }
     pub(crate) fn get_methods_trait_name(superclass_name: &QualifiedName) -> QualifiedName {
         Self::with_qualified_name_suffix(superclass_name, "methods")
     }
-- 
2.43.0

