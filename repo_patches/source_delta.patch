From 127563399ea0d8b4c2ee360a639b7ac9a4b0bc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 1/9] fix: emit raw identifiers without r# in generated GLSL

---
 crevice-derive/src/glsl.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crevice-derive/src/glsl.rs b/crevice-derive/src/glsl.rs
index e6b7a3c..bb8f5b3 100644
--- a/crevice-derive/src/glsl.rs
+++ b/crevice-derive/src/glsl.rs
@@ -1,6 +1,6 @@
 use proc_macro2::{Literal, TokenStream};
 use quote::quote;
-use syn::{parse_quote, Data, DeriveInput, Fields, Path};
+use syn::{ext::IdentExt, parse_quote, Data, DeriveInput, Fields, Path};
 
 pub fn emit(input: DeriveInput) -> TokenStream {
     let fields = match &input.data {
@@ -16,13 +16,14 @@ pub fn emit(input: DeriveInput) -> TokenStream {
     let struct_trait_path: Path = parse_quote!(::crevice::glsl::GlslStruct);
 
     let name = input.ident;
-    let name_str = Literal::string(&name.to_string());
+    let name_str = Literal::string(&name.unraw().to_string());
 
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let glsl_fields = fields.named.iter().map(|field| {
         let field_ty = &field.ty;
-        let field_name_str = Literal::string(&field.ident.as_ref().unwrap().to_string());
+        let field_name = field.ident.as_ref().unwrap();
+        let field_name_str = Literal::string(&field_name.unraw().to_string());
 
         quote! {
             ::crevice::glsl::GlslField {
-- 
2.43.0


From 7ac592de0c7edac2728de123e9531ab78cb337e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 2/9] fix: implement Glsl for bool

---
 src/glsl.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/glsl.rs b/src/glsl.rs
index 2d595b3..a30c5dd 100644
--- a/src/glsl.rs
+++ b/src/glsl.rs
@@ -38,6 +38,8 @@ struct SpotLight {
 
 pub use crevice_derive::GlslStruct;
 
+use crate::bool::Bool;
+
 /// Trait for types that have a GLSL equivalent. Useful for generating GLSL code
 /// from Rust structs.
 pub unsafe trait Glsl {
@@ -97,3 +99,11 @@ unsafe impl Glsl for i32 {
 unsafe impl Glsl for u32 {
     const NAME: &'static str = "uint";
 }
+
+unsafe impl Glsl for bool {
+    const NAME: &'static str = "bool";
+}
+
+unsafe impl Glsl for Bool {
+    const NAME: &'static str = "bool";
+}
-- 
2.43.0


From 29ea13b3edf8750dddabd62304f96045839ef040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 3/9] fix: give empty std430 structs an alignment of 1 instead
 of 0

---
 crevice-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crevice-derive/src/lib.rs b/crevice-derive/src/lib.rs
index ab1012a..6e78943 100644
--- a/crevice-derive/src/lib.rs
+++ b/crevice-derive/src/lib.rs
@@ -16,7 +16,7 @@ pub fn derive_as_std140(input: CompilerTokenStream) -> CompilerTokenStream {
 #[proc_macro_derive(AsStd430)]
 pub fn derive_as_std430(input: CompilerTokenStream) -> CompilerTokenStream {
     let input = parse_macro_input!(input as DeriveInput);
-    let expanded = layout::emit(input, "Std430", "std430", 0);
+    let expanded = layout::emit(input, "Std430", "std430", 1);
 
     CompilerTokenStream::from(expanded)
 }
-- 
2.43.0


From c94f2b3f2fc2c11220427b189ee5bec7eac56294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 4/9] fix: do not let generated padding clash with fields named
 _padN

---
 crevice-derive/src/layout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index 343d2ba..e776fb3 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -131,7 +131,7 @@ pub fn emit(
         .map(|(index, field)| {
             let field_name = field.ident.as_ref().unwrap();
             let field_ty = layout_version_of_ty(&field.ty);
-            let pad_field_name = format_ident!("_pad{}", index);
+            let pad_field_name = format_ident!("__crevice_pad{}", index);
             let pad_fn = &pad_fns[index];
 
             quote! {
-- 
2.43.0


From 99f59a949846dc23dc8f2a5405c7a145689091c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 5/9] fix: call the conversion trait by path in derived code

---
 crevice-derive/src/layout.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index e776fb3..b4b97b5 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -145,9 +145,10 @@ pub fn emit(
         .iter()
         .map(|field| {
             let field_name = field.ident.as_ref().unwrap();
+            let field_ty = &field.ty;
 
             quote! {
-                #field_name: self.#field_name.#as_trait_method(),
+                #field_name: <#field_ty as #as_trait_path>::#as_trait_method(&self.#field_name),
             }
         })
         .collect();
-- 
2.43.0


From 8392f0cc83bf9133967510ac2c25b157c50d83ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 6/9] fix: name the standard derives by absolute path in
 derived code

---
 crevice-derive/src/layout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index b4b97b5..02b6ac7 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -165,7 +165,7 @@ pub fn emit(
         .collect();
 
     let struct_definition = quote! {
-        #[derive(Debug, Clone, Copy)]
+        #[derive(::core::fmt::Debug, ::core::clone::Clone, ::core::marker::Copy)]
         #[repr(C)]
         #[doc(hidden)]
         #[allow(warnings)]
-- 
2.43.0


From d0e2cff1a519011d5147d2683dafc27c93ff2f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 7/9] fix: derive structs of 20 and more members without
 exponential constant evaluation

---
 crevice-derive/src/layout.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index 02b6ac7..a136195 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -65,31 +65,38 @@ pub fn emit(
 
     // Computes the offset immediately AFTER the field with the given index.
     //
-    // This function depends on the generated padding calculation functions to
-    // do correct alignment. Be careful not to cause recursion!
+    // This adds up sizes and padding itself instead of calling the generated
+    // padding calculation functions: each of them would call all the ones
+    // before it, and evaluating them would take time exponential in the number
+    // of fields.
     let offset_after_field = |target: usize| {
-        let mut output = vec![quote!(0usize)];
+        let mut output = TokenStream::new();
 
         for index in 0..=target {
-            let field_ty = &fields[index].ty;
-            let layout_ty = layout_version_of_ty(field_ty);
+            let layout_ty = layout_version_of_ty(&fields[index].ty);
 
-            output.push(quote! {
-                + ::core::mem::size_of::<#layout_ty>()
+            output.extend(quote! {
+                offset += ::core::mem::size_of::<#layout_ty>();
             });
 
-            // For every field except our target field, also add the generated
-            // padding. Padding occurs after each field, so it isn't included in
-            // this value.
+            // For every field except our target field, also add the padding.
+            // Padding occurs after each field, so it isn't included in this
+            // value.
             if index < target {
-                let pad_fn = &pad_fns[index];
-                output.push(quote! {
-                    + #pad_fn()
+                let next_alignment = layout_alignment_of_ty(&fields[index + 1].ty);
+                output.extend(quote! {
+                    offset += ::crevice::internal::align_offset(offset, #next_alignment);
                 });
             }
         }
 
-        output.into_iter().collect::<TokenStream>()
+        quote! {
+            {
+                let mut offset = 0usize;
+                #output
+                offset
+            }
+        }
     };
 
     let pad_fn_impls: TokenStream = pad_fns
-- 
2.43.0


From a8f19005a2351825bcf28713340184e1ec882ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 8/9] fix: implement Debug for DynamicUniformStd140 so that
 structs can contain it

---
 src/std140/dynamic_uniform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std140/dynamic_uniform.rs b/src/std140/dynamic_uniform.rs
index 0fe3fda..310c2f1 100644
--- a/src/std140/dynamic_uniform.rs
+++ b/src/std140/dynamic_uniform.rs
@@ -22,7 +22,7 @@ impl<T: AsStd140> AsStd140 for DynamicUniform<T> {
 }
 
 /// std140 variant of [`DynamicUniform`].
-#[derive(Clone, Copy)]
+#[derive(Debug, Clone, Copy)]
 #[repr(transparent)]
 pub struct DynamicUniformStd140<T>(T);
 
-- 
2.43.0


From 713cbd44e92abd8089f54076a99031d3de9282db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:05 +0000
Subject: [PATCH 9/9] fix: let the debug methods of an empty struct compile

---
 crevice-derive/src/layout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index a136195..c28c891 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -213,7 +213,7 @@ pub fn emit(
                         offset: usize,
                         size: usize,
                     }
-                    let mut fields = Vec::new();
+                    let mut fields = Vec::<Field>::new();
 
                     #debug_fields
 
-- 
2.43.0

