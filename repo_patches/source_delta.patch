From be74a072614ed90237c2f32f82c1ddacc47f6d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 01/26] fix: compile craballoc without the wgpu feature

The imports only used by WgpuRuntime were not feature gated.
---
 crates/craballoc/src/runtime.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/runtime.rs b/crates/craballoc/src/runtime.rs
index 6e7a4b9..e404598 100644
--- a/crates/craballoc/src/runtime.rs
+++ b/crates/craballoc/src/runtime.rs
@@ -1,16 +1,18 @@
 //! The CPU side fo slab allocation.
 
-use std::{
-    future::Future,
-    ops::Deref,
-    sync::{Arc, Mutex},
-};
+#[cfg(feature = "wgpu")]
+use std::sync::Arc;
+use std::{future::Future, ops::Deref, sync::Mutex};
 
 use crabslab::Array;
+#[cfg(feature = "wgpu")]
 use snafu::ResultExt;
+#[cfg(feature = "wgpu")]
 use tracing::Instrument;
 
-use crate::slab::{AsyncRecvSnafu, AsyncSnafu, SlabAllocatorError};
+use crate::slab::SlabAllocatorError;
+#[cfg(feature = "wgpu")]
+use crate::slab::{AsyncRecvSnafu, AsyncSnafu};
 
 /// An update to a slab.
 ///
@@ -181,6 +183,7 @@ pub struct WgpuRuntime {
     pub queue: Arc<wgpu::Queue>,
 }
 
+#[cfg(feature = "wgpu")]
 impl AsRef<WgpuRuntime> for WgpuRuntime {
     fn as_ref(&self) -> &WgpuRuntime {
         self
-- 
2.43.0


From 269a08ddabceecece94f13a670e39b0bc745ebbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 02/26] fix: committing an empty array no longer panics

An empty array is null, its update was queued at index u32::MAX.
---
 crates/craballoc/src/value.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index fd5e8ce..aeb7006 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -437,7 +437,12 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
             notifier_index,
             notifier: mngr.notifier.0.clone(),
             array,
-            updates: Arc::new(Mutex::new(vec![update])),
+            // An empty array has no location in the slab, so there's nothing to write.
+            updates: Arc::new(Mutex::new(if array.is_empty() {
+                vec![]
+            } else {
+                vec![update]
+            })),
         };
         mngr.insert_update_source(notifier_index, WeakGpuRef::from_gpu_array(&g));
         g
-- 
2.43.0


From c9d80902be06070571a4d5e60c5377e503ef4f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 03/26] fix: allocating a zero-sized item no longer consumes a
 recycled range

Removing zero elements from a range starting at 0 underflowed.
---
 crates/craballoc/src/range.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index 0d83dfc..a546198 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -130,6 +130,10 @@ impl<R: IsRange> RangeManager<R> {
 impl RangeManager<Range> {
     /// Removes a range of `count` elements, if possible.
     pub fn remove(&mut self, count: u32) -> Option<Range> {
+        if count == 0 {
+            // A range cannot represent zero elements
+            return None;
+        }
         let mut remove_index = usize::MAX;
         for (i, range) in self.ranges.iter_mut().enumerate() {
             // This is potentially a hot path, so use the `if` even
-- 
2.43.0


From d067892723bba90efaa353bd8ccf0609080c396e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 04/26] fix: ignore GpuArray::set_item with an index out of
 bounds

The update was queued at the null id and made the next commit panic.
---
 crates/craballoc/src/value.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index aeb7006..a9fc78e 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -466,6 +466,10 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
 
     pub fn set_item(&self, index: usize, value: &T) {
         let id = self.array.at(index);
+        if id.is_none() {
+            log::error!("index {index} is out of bounds of {:?}", self.array);
+            return;
+        }
         let array = Array::<u32>::new(id.inner(), T::SLAB_SIZE as u32);
         let mut elements = vec![0u32; T::SLAB_SIZE];
         elements.write(0u32.into(), value);
-- 
2.43.0


From 1b472c2fac1d15ea0ef266b4e8a114bf7404e8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 05/26] fix: reserve_capacity of Vec reserves the requested
 capacity

Vec::reserve counts from the length, not from the capacity. Asking for less
than the current capacity underflowed.
---
 crates/crabslab/src/slab.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab/src/slab.rs b/crates/crabslab/src/slab.rs
index b31d1c1..7b0fd8e 100644
--- a/crates/crabslab/src/slab.rs
+++ b/crates/crabslab/src/slab.rs
@@ -296,7 +296,7 @@ impl GrowableSlab for Vec<u32> {
     }
 
     fn reserve_capacity(&mut self, capacity: usize) {
-        Vec::reserve(self, capacity - self.capacity());
+        Vec::reserve(self, capacity.saturating_sub(self.len()));
     }
 
     fn increment_len(&mut self, n: usize) -> usize {
-- 
2.43.0


From 7512829e01d23eab0750acbb995a484c9e151d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 06/26] fix: write_array does not write past the end of the
 array

When given more data than the array has elements it overwrote whatever came
after the array.
---
 crates/crabslab/src/slab.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/crabslab/src/slab.rs b/crates/crabslab/src/slab.rs
index 7b0fd8e..be22cef 100644
--- a/crates/crabslab/src/slab.rs
+++ b/crates/crabslab/src/slab.rs
@@ -96,7 +96,10 @@ pub trait Slab {
         if array.len() > data.len() {
             return;
         }
-        let _ = self.write_indexed_slice(data, array.starting_index());
+        let mut index = array.starting_index();
+        for i in 0..array.len() {
+            index = self.write_indexed(crate::slice_index(data, i), index);
+        }
     }
 }
 
-- 
2.43.0


From 0a4ac7c8ad153da478ed186acc54b52235e342cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 07/26] fix: RangeManager::add_range merges with every range it
 overlaps or touches

It only merged with the first one, which left overlapping slab updates that
could be applied out of order, and adjacent free ranges that stayed split.
---
 crates/craballoc/src/range.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index a546198..8ef4ad2 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -116,14 +116,22 @@ impl<R: IsRange> RangeManager<R> {
         self.ranges.is_empty()
     }
 
-    pub fn add_range(&mut self, input_range: R) {
-        for range in self.ranges.iter_mut() {
-            if range.should_merge_with(&input_range) {
+    pub fn add_range(&mut self, mut input_range: R) {
+        // The input may bridge any number of existing ranges, so merge them all.
+        let mut insertion_index = None;
+        let mut i = 0;
+        while i < self.ranges.len() {
+            if self.ranges[i].should_merge_with(&input_range) {
+                let mut range = self.ranges.remove(i);
                 range.union(input_range);
-                return;
+                input_range = range;
+                insertion_index.get_or_insert(i);
+            } else {
+                i += 1;
             }
         }
-        self.ranges.push(input_range);
+        let insertion_index = insertion_index.unwrap_or(self.ranges.len());
+        self.ranges.insert(insertion_index, input_range);
     }
 }
 
-- 
2.43.0


From b7d1ae1a15c1a7e1299e3a73c15deb6df5e74e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 08/26] fix: a Range of one element is not empty

---
 crates/craballoc/src/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index 8ef4ad2..94b36e6 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -33,7 +33,7 @@ impl Range {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.last_index == self.first_index
+        self.len() == 0
     }
 
     pub fn intersects(&self, other: &Range) -> bool {
-- 
2.43.0


From 469ea5155f80681311619f03f50e60894baedab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:30 +0000
Subject: [PATCH 09/26] fix: derive SlabItem for structs without fields

The generated SLAB_SIZE block was empty, which does not compile.
---
 crates/crabslab-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 4b37d1d..214e758 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -524,7 +524,7 @@ fn derive_from_slab_struct(
         impl #impl_generics crabslab::SlabItem for #name #ty_generics #where_clause
         {
             const SLAB_SIZE: usize = {
-                #( <#field_tys as crabslab::SlabItem>::SLAB_SIZE )+*
+                0 #( + <#field_tys as crabslab::SlabItem>::SLAB_SIZE )*
             };
 
             fn read_slab(mut index: usize, slab: &[u32]) -> Self {
-- 
2.43.0


From c58b7e99ac5194b68403db0eb0e822af5bda4862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:30 +0000
Subject: [PATCH 10/26] fix: derive SlabItem for enum variants with any field
 names

Fields named after variables of the generated functions (index, slab,
slab_size, original_index, __hash) failed to compile, or wrote their value in
place of the variant's.
---
 crates/crabslab-derive/src/lib.rs | 71 ++++++++++++++++---------------
 1 file changed, 37 insertions(+), 34 deletions(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 214e758..7dd09a8 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -10,6 +10,15 @@ enum FieldName {
     Ident(Ident),
 }
 
+impl quote::ToTokens for FieldName {
+    fn to_tokens(&self, tokens: &mut proc_macro2::TokenStream) {
+        match self {
+            FieldName::Index(i) => i.to_tokens(tokens),
+            FieldName::Ident(i) => i.to_tokens(tokens),
+        }
+    }
+}
+
 struct FieldParams {
     field_tys: Vec<Type>,
     field_names: Vec<FieldName>,
@@ -39,6 +48,22 @@ impl FieldParams {
             field_names,
         }
     }
+
+    /// Names to bind each field to, which don't collide with any of the
+    /// variables used in the generated functions.
+    fn bindings(&self) -> Vec<Ident> {
+        self.field_names
+            .iter()
+            .enumerate()
+            .map(|(i, name)| {
+                let span = match name {
+                    FieldName::Index(index) => index.span,
+                    FieldName::Ident(ident) => ident.span(),
+                };
+                Ident::new(&format!("__{i}"), span)
+            })
+            .collect()
+    }
 }
 
 fn get_struct_params(ds: &DataStruct) -> FieldParams {
@@ -251,18 +276,11 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
 
     let variant_reads = variants.iter().map(|variant| {
         let ident = &variant.variant.ident;
-        let field_names = variant
-            .fields
-            .field_names
-            .iter()
-            .map(|name| match name {
-                FieldName::Index(i) => Ident::new(&format!("__{}", i.index), i.span),
-                FieldName::Ident(field) => field.clone(),
-            })
-            .collect::<Vec<_>>();
+        let field_names = &variant.fields.field_names;
+        let bindings = variant.fields.bindings();
         let field_tys = &variant.fields.field_tys;
-        let num_fields = field_names.len();
-        let reads = field_names
+        let num_fields = bindings.len();
+        let reads = bindings
             .iter()
             .zip(field_tys.iter())
             .enumerate()
@@ -289,7 +307,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
                 quote! {{
                     #(#reads)*
                      #name::#ident {
-                         #(#field_names),*
+                         #(#field_names: #bindings),*
                      }
                 }}
             }
@@ -297,7 +315,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
                 quote! {{
                     #(#reads)*
                     #name::#ident(
-                        #(#field_names),*
+                        #(#bindings),*
                     )
                 }}
             }
@@ -318,17 +336,9 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
         })
         .collect();
     let variant_writes = variants.iter().map(|variant| {
-        let field_names = variant
-            .fields
-            .field_names
-            .iter()
-            .map(|name| match name {
-                FieldName::Index(i) => Ident::new(&format!("__{}", i.index), i.span),
-                FieldName::Ident(field) => field.clone(),
-            })
-            .collect::<Vec<_>>();
+        let bindings = variant.fields.bindings();
         quote! {
-            #(let index = #field_names.write_slab(index, slab);)*
+            #(let index = #bindings.write_slab(index, slab);)*
         }
     });
     let write_variants_matches: Vec<proc_macro2::TokenStream> = variants
@@ -337,28 +347,21 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
         .zip(variant_writes)
         .map(|((i, variant), write)| {
             let hash = syn::LitInt::new(&i.to_string(), variant.variant.span());
-            let field_names = variant
-                .fields
-                .field_names
-                .iter()
-                .map(|name| match name {
-                    FieldName::Index(i) => Ident::new(&format!("__{}", i.index), i.span),
-                    FieldName::Ident(field) => field.clone(),
-                })
-                .collect::<Vec<_>>();
+            let field_names = &variant.fields.field_names;
+            let bindings = variant.fields.bindings();
             let ident = &variant.variant.ident;
             let pat_match = match variant.variant.fields {
                 Fields::Named(_) => {
                     quote! {
                         #name::#ident {
-                            #(#field_names,)*
+                            #(#field_names: #bindings,)*
                         }
                     }
                 }
                 Fields::Unnamed(_) => {
                     quote! {
                         #name::#ident(
-                            #(#field_names,)*
+                            #(#bindings,)*
                         )
                     }
                 }
-- 
2.43.0


From 6b40ced593a69ed360b0c96b0cac82f7a721b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:30 +0000
Subject: [PATCH 11/26] fix: derive SlabItem for structs with raw identifiers
 as field names

---
 crates/crabslab-derive/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 7dd09a8..b079a40 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -1,8 +1,8 @@
 //! Provides derive macros for `crabslab`.
 use quote::quote;
 use syn::{
-    spanned::Spanned, Data, DataEnum, DataStruct, DeriveInput, Fields, FieldsNamed, FieldsUnnamed,
-    Ident, Index, Type, TypeTuple, WhereClause, WherePredicate,
+    ext::IdentExt, spanned::Spanned, Data, DataEnum, DataStruct, DeriveInput, Fields, FieldsNamed,
+    FieldsUnnamed, Ident, Index, Type, TypeTuple, WhereClause, WherePredicate,
 };
 
 enum FieldName {
@@ -487,11 +487,11 @@ fn derive_from_slab_struct(
             ),
             FieldName::Ident(field) => (
                 Ident::new(
-                    &format!("OFFSET_OF_{}", field.to_string().to_uppercase()),
+                    &format!("OFFSET_OF_{}", field.unraw().to_string().to_uppercase()),
                     field.span(),
                 ),
                 Ident::new(
-                    &format!("SLAB_SIZE_OF_{}", field.to_string().to_uppercase()),
+                    &format!("SLAB_SIZE_OF_{}", field.unraw().to_string().to_uppercase()),
                     field.span(),
                 ),
             ),
-- 
2.43.0


From c2848f8821c33acee0ae3f6ace6e84327484d77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:30 +0000
Subject: [PATCH 12/26] fix: derive field offsets for structs with unbounded
 generics

---
 crates/crabslab-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index b079a40..86cea50 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -514,7 +514,7 @@ fn derive_from_slab_struct(
         quote! {
             #[automatically_derived]
             /// Offsets into the slab buffer for each field.
-            impl #impl_generics #name #ty_generics {
+            impl #impl_generics #name #ty_generics #where_clause {
                 #(#offsets)*
             }
         }
-- 
2.43.0


From 59cfe6925c24075c51a26ea6e54b2612a28c8d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 13/26] fix: reserve space for concurrent allocations
 atomically

Expanding the capacity and taking space were separate steps, so allocations
made by several threads could leave the capacity smaller than the length, and
a commit would write out of bounds.
---
 crates/craballoc/src/slab.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 4d09fb1..cb3ff58 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -313,8 +313,11 @@ impl<R: IsRuntime> SlabAllocator<R> {
     }
 
     pub(crate) fn allocate<T: SlabItem>(&self) -> Id<T> {
+        // The guard is held for the whole allocation, as the length and the capacity
+        // must be updated together.
         // UNWRAP: we want to panic
-        let may_range = self.recycles.write().unwrap().remove(T::SLAB_SIZE as u32);
+        let mut recycles_guard = self.recycles.write().unwrap();
+        let may_range = recycles_guard.remove(T::SLAB_SIZE as u32);
         if let Some(range) = may_range {
             let id = Id::<T>::new(range.first_index);
             log::trace!(
@@ -338,12 +341,11 @@ impl<R: IsRuntime> SlabAllocator<R> {
             return Array::default();
         }
 
+        // The guard is held for the whole allocation, as the length and the capacity
+        // must be updated together.
         // UNWRAP: we want to panic
-        let may_range = self
-            .recycles
-            .write()
-            .unwrap()
-            .remove((T::SLAB_SIZE * len) as u32);
+        let mut recycles_guard = self.recycles.write().unwrap();
+        let may_range = recycles_guard.remove((T::SLAB_SIZE * len) as u32);
         if let Some(range) = may_range {
             let array = Array::<T>::new(range.first_index, len as u32);
             log::trace!(
@@ -400,8 +402,14 @@ impl<R: IsRuntime> SlabAllocator<R> {
     /// Recreate the internal buffer, writing the contents of the previous buffer (if it
     /// exists) to the new one, then return the new buffer.
     fn recreate_buffer(&self) -> SlabBuffer<R::Buffer> {
+        let capacity = {
+            // Wait for any ongoing allocation.
+            // UNWRAP: panic on purpose
+            let _recycles_guard = self.recycles.read().unwrap();
+            self.capacity()
+        };
         let new_buffer = self.runtime.buffer_create(
-            self.capacity(),
+            capacity,
             self.label.as_deref(),
             self.buffer_usages.clone(),
         );
-- 
2.43.0


From d85b2ac34b01e2ca404877fc3ae7a323b1890840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 14/26] fix: serialize commits and size the buffer after taking
 the updates

Concurrent commits could write an older update after a newer one, return before
an update was written, or find no buffer to write to. An update of a value
allocated after the expansion check was written out of bounds.
---
 crates/craballoc/src/slab.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index cb3ff58..c5aec32 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -5,7 +5,7 @@ use rustc_hash::{FxHashMap, FxHashSet};
 use snafu::prelude::*;
 use std::{
     ops::Deref,
-    sync::{atomic::AtomicBool, Arc, RwLock},
+    sync::{atomic::AtomicBool, Arc, Mutex, PoisonError, RwLock},
 };
 
 use crate::{
@@ -243,6 +243,8 @@ pub struct SlabAllocator<Runtime: IsRuntime> {
     update_queue: Arc<RwLock<FxHashSet<usize>>>,
     // Recycled memory ranges
     pub(crate) recycles: Arc<RwLock<RangeManager<Range>>>,
+    // Held for the duration of a commit
+    commit_lock: Arc<Mutex<()>>,
 }
 
 impl<R: IsRuntime> Clone for SlabAllocator<R> {
@@ -262,6 +264,7 @@ impl<R: IsRuntime> Clone for SlabAllocator<R> {
             update_sources: self.update_sources.clone(),
             update_queue: self.update_queue.clone(),
             recycles: self.recycles.clone(),
+            commit_lock: self.commit_lock.clone(),
         }
     }
 }
@@ -285,6 +288,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
             update_sources: Default::default(),
             update_queue: Default::default(),
             recycles: Default::default(),
+            commit_lock: Default::default(),
             len: Default::default(),
             // Start with size 1, because some of `wgpu`'s validation depends on it.
             // See <https://github.com/gfx-rs/wgpu/issues/6414> for more info.
@@ -527,10 +531,20 @@ impl<R: IsRuntime> SlabAllocator<R> {
     ///
     /// Returns a [`SlabBuffer`] wrapping the internal buffer that is currently in use by the allocator.
     pub fn commit(&self) -> SlabBuffer<R::Buffer> {
+        // Only one commit may take updates and write them at a time, otherwise an older
+        // update could overwrite a newer one. The lock protects no data, so it is fine to
+        // be poisoned.
+        let _commit_guard = self
+            .commit_lock
+            .lock()
+            .unwrap_or_else(PoisonError::into_inner);
         let invocation_k = self
             .invocation_k
             .fetch_add(1, std::sync::atomic::Ordering::Relaxed)
             + 1;
+        // Take the updates _before_ checking for expansion, so that the buffer fits all
+        // of them.
+        let writes = self.drain_updated_sources();
         let buffer = if self.needs_expansion.swap(false, Ordering::Relaxed) {
             self.invalidation_k
                 .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
@@ -539,7 +553,6 @@ impl<R: IsRuntime> SlabAllocator<R> {
             // UNWRAP: Safe because we know it exists or else it would need expansion
             self.get_buffer().unwrap()
         };
-        let writes = self.drain_updated_sources();
         if !writes.is_empty() {
             self.runtime
                 .buffer_write(writes.ranges.into_iter(), &buffer);
-- 
2.43.0


From 61ce77bb8b47af35876bdec1f538786f2e9e3e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 15/26] fix: notify of a new update source after inserting it

A concurrent commit could consume the notification before the source was there,
which left the value's initial update unwritten.
---
 crates/craballoc/src/slab.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index c5aec32..45c5b28 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -307,9 +307,11 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     pub(crate) fn insert_update_source(&self, k: usize, source: WeakGpuRef) {
         log::trace!("slab insert_update_source {k}",);
-        let _ = self.notifier.0.try_send(k);
         // UNWRAP: panic on purpose
         self.update_sources.write().unwrap().insert(k, source);
+        // Notify _after_ inserting, otherwise a concurrent commit may consume the
+        // notification without finding the source.
+        let _ = self.notifier.0.try_send(k);
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From dc29d296c15a06db1b8ab86127c74ba4ff0e1e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 16/26] fix: don't leak the allocation when writing a new value
 panics

---
 crates/craballoc/src/value.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index a9fc78e..c239577 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -361,8 +361,10 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> Gpu<T> {
             notify: mngr.notifier.0.clone(),
             update: Default::default(),
         };
-        s.set(value);
+        // Insert before setting the value, so that the allocation is recycled if writing
+        // the value panics.
         mngr.insert_update_source(notifier_index, WeakGpuRef::from_gpu(&s));
+        s.set(value);
         s
     }
 
@@ -423,14 +425,14 @@ impl<T> Clone for GpuArray<T> {
 
 impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
     pub fn new(mngr: &SlabAllocator<impl IsRuntime>, values: &[T]) -> Self {
+        // Write the elements before allocating, so that nothing is leaked if writing an
+        // element panics.
+        let mut elements = vec![0u32; T::SLAB_SIZE * values.len()];
+        elements.write_indexed_slice(values, 0);
         let array = mngr.allocate_array::<T>(values.len());
-        let update = {
-            let mut elements = vec![0u32; T::SLAB_SIZE * array.len()];
-            elements.write_indexed_slice(values, 0);
-            SlabUpdate {
-                array: array.into_u32_array(),
-                elements,
-            }
+        let update = SlabUpdate {
+            array: array.into_u32_array(),
+            elements,
         };
         let notifier_index = mngr.next_update_k();
         let g = GpuArray {
-- 
2.43.0


From 162f607eac2fbf37499a27a707762f143d27fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 17/26] fix: take the update queue in one step

Ids put into the queue by a concurrent get_updated_source_ids, in between
reading and resetting the queue, were dropped and their updates lost.
---
 crates/craballoc/src/slab.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 45c5b28..6b16e6f 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -451,10 +451,15 @@ impl<R: IsRuntime> SlabAllocator<R> {
     pub fn get_updated_source_ids(&self) -> FxHashSet<usize> {
         // UNWRAP: panic on purpose
         let mut update_set = self.update_queue.write().unwrap();
+        self.receive_notifications(&mut update_set);
+        update_set.clone()
+    }
+
+    /// Move all received notifications into the update queue.
+    fn receive_notifications(&self, update_queue: &mut FxHashSet<usize>) {
         while let Ok(source_index) = self.notifier.1.try_recv() {
-            update_set.insert(source_index);
+            update_queue.insert(source_index);
         }
-        update_set.clone()
     }
 
     /// Build the set of sources that require updates, draining the source
@@ -462,9 +467,12 @@ impl<R: IsRuntime> SlabAllocator<R> {
     ///
     /// This also places recycled items into the recycle bin.
     fn drain_updated_sources(&self) -> RangeManager<SlabUpdate> {
-        let update_set = self.get_updated_source_ids();
-        // UNWRAP: panic on purpose
-        *self.update_queue.write().unwrap() = Default::default();
+        let update_set = {
+            // UNWRAP: panic on purpose
+            let mut update_queue = self.update_queue.write().unwrap();
+            self.receive_notifications(&mut update_queue);
+            std::mem::take(&mut *update_queue)
+        };
         // Prepare all of our GPU buffer writes
         let mut writes = RangeManager::<SlabUpdate>::default();
         {
-- 
2.43.0


From aae8bdd226a66ddd6a123663d545f0fa4840990d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 18/26] fix: notify of a dropped value after releasing it

A concurrent commit could consume the notification while the value still seemed
to be in use, and its space was never recycled.
---
 crates/craballoc/src/value.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index c239577..b54174d 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -336,6 +336,9 @@ pub struct Gpu<T> {
 
 impl<T> Drop for Gpu<T> {
     fn drop(&mut self) {
+        // Release the reference _before_ notifying, otherwise a concurrent commit may
+        // consume the notification while the value still seems to be in use.
+        drop(std::mem::take(&mut self.update));
         let _ = self.notify.try_send(self.notifier_index);
     }
 }
@@ -408,6 +411,9 @@ pub struct GpuArray<T> {
 
 impl<T> Drop for GpuArray<T> {
     fn drop(&mut self) {
+        // Release the reference _before_ notifying, otherwise a concurrent commit may
+        // consume the notification while the array still seems to be in use.
+        drop(std::mem::take(&mut self.updates));
         let _ = self.notifier.try_send(self.notifier_index);
     }
 }
-- 
2.43.0


From 2d6e92328e74c0df12e7a8826010fc982af0334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 19/26] fix: invalidate buffers and provide the new one in one
 step

Refreshing a buffer during a commit could find the old buffer, and trip the
assertion that the updated buffer is valid.
---
 crates/craballoc/src/slab.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 6b16e6f..68c74e8 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -199,9 +199,10 @@ impl<T> SlabBuffer<T> {
             // is created, source_slab_buffer will always be Some.
             let updated_buffer = {
                 let guard = self.source_slab_buffer.read().unwrap();
-                guard.as_ref().unwrap().clone()
+                let updated_buffer = guard.as_ref().unwrap().clone();
+                debug_assert!(updated_buffer.is_valid());
+                updated_buffer
             };
-            debug_assert!(updated_buffer.is_valid());
             *self = updated_buffer;
             true
         } else {
@@ -407,7 +408,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     /// Recreate the internal buffer, writing the contents of the previous buffer (if it
     /// exists) to the new one, then return the new buffer.
-    fn recreate_buffer(&self) -> SlabBuffer<R::Buffer> {
+    fn recreate_buffer(&self, invocation_k: usize) -> SlabBuffer<R::Buffer> {
         let capacity = {
             // Wait for any ongoing allocation.
             // UNWRAP: panic on purpose
@@ -424,6 +425,10 @@ impl<R: IsRuntime> SlabAllocator<R> {
             self.runtime
                 .buffer_copy(&old_buffer, &new_buffer, self.label.as_deref());
         }
+        // Invalidate the old buffer while holding the guard, so that the new one is
+        // available to all that find out.
+        self.invalidation_k
+            .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
         let slab_buffer = SlabBuffer::new(
             self.invalidation_k.clone(),
             self.invocation_k.clone(),
@@ -556,9 +561,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
         // of them.
         let writes = self.drain_updated_sources();
         let buffer = if self.needs_expansion.swap(false, Ordering::Relaxed) {
-            self.invalidation_k
-                .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
-            self.recreate_buffer()
+            self.recreate_buffer(invocation_k)
         } else {
             // UNWRAP: Safe because we know it exists or else it would need expansion
             self.get_buffer().unwrap()
-- 
2.43.0


From c8ab035df4680d015eb925cbb4c9be5f75f41a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 20/26] fix: assigning a value that outlives its allocator no
 longer panics

---
 crates/craballoc/src/value.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index b54174d..fb6cff4 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -385,8 +385,8 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> Gpu<T> {
                 es
             },
         }];
-        // UNWRAP: safe because it's unbounded
-        self.notify.try_send(self.notifier_index).unwrap();
+        // IGNORED: it's unbounded, so this only fails if the allocator has been dropped
+        let _ = self.notify.try_send(self.notifier_index);
     }
 
     /// A unique identifier.
@@ -485,8 +485,8 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
             .lock()
             .unwrap()
             .push(SlabUpdate { array, elements });
-        // UNWRAP: safe because it's unbounded
-        self.notifier.try_send(self.notifier_index).unwrap();
+        // IGNORED: it's unbounded, so this only fails if the allocator has been dropped
+        let _ = self.notifier.try_send(self.notifier_index);
     }
 
     /// A unique identifier.
-- 
2.43.0


From 57b4a012c1b99aeea7398868dcf1b7199bd703b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 21/26] fix: take the expansion flag and the capacity in one
 step

An allocation in between made the following commit replace the buffer with one
of the same capacity.
---
 crates/craballoc/src/slab.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 68c74e8..5a5120d 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -408,13 +408,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     /// Recreate the internal buffer, writing the contents of the previous buffer (if it
     /// exists) to the new one, then return the new buffer.
-    fn recreate_buffer(&self, invocation_k: usize) -> SlabBuffer<R::Buffer> {
-        let capacity = {
-            // Wait for any ongoing allocation.
-            // UNWRAP: panic on purpose
-            let _recycles_guard = self.recycles.read().unwrap();
-            self.capacity()
-        };
+    fn recreate_buffer(&self, capacity: usize, invocation_k: usize) -> SlabBuffer<R::Buffer> {
         let new_buffer = self.runtime.buffer_create(
             capacity,
             self.label.as_deref(),
@@ -560,8 +554,16 @@ impl<R: IsRuntime> SlabAllocator<R> {
         // Take the updates _before_ checking for expansion, so that the buffer fits all
         // of them.
         let writes = self.drain_updated_sources();
-        let buffer = if self.needs_expansion.swap(false, Ordering::Relaxed) {
-            self.recreate_buffer(invocation_k)
+        let needed_capacity = {
+            // Wait for any ongoing allocation, as it updates the capacity and the flag.
+            // UNWRAP: panic on purpose
+            let _recycles_guard = self.recycles.read().unwrap();
+            self.needs_expansion
+                .swap(false, Ordering::Relaxed)
+                .then(|| self.capacity())
+        };
+        let buffer = if let Some(capacity) = needed_capacity {
+            self.recreate_buffer(capacity, invocation_k)
         } else {
             // UNWRAP: Safe because we know it exists or else it would need expansion
             self.get_buffer().unwrap()
-- 
2.43.0


From 2f820693d53f6d3b64ac7c9ea7968ae13f0243b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:01 +0000
Subject: [PATCH 22/26] fix: free the buffer when the slab and all buffer
 handles are dropped

The slab's buffer held a reference to the place it is stored in, so it was never
freed.
---
 crates/craballoc/src/slab.rs | 55 +++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 5a5120d..806cb29 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -37,6 +37,13 @@ pub enum SlabAllocatorError {
     Other { source: Box<dyn std::error::Error> },
 }
 
+/// The buffer a slab is currently working with.
+struct InternalBuffer<T> {
+    // The slab's `slab_update_k` at the time of this buffer's creation.
+    creation_k: usize,
+    buffer: Arc<T>,
+}
+
 /// A thin wrapper around a buffer `T` that provides the ability to tell
 /// if the buffer has been invalidated by the [`SlabAllocator`] that it
 /// originated from.
@@ -54,7 +61,9 @@ pub struct SlabBuffer<T> {
     // The buffer created at `buffer_creation_k`
     buffer: Arc<T>,
     // The buffer the source slab is currently working with
-    source_slab_buffer: Arc<RwLock<Option<SlabBuffer<T>>>>,
+    //
+    // This is not another `SlabBuffer`, as that would be a reference cycle.
+    source_slab_buffer: Arc<RwLock<Option<InternalBuffer<T>>>>,
 }
 
 impl<T> Clone for SlabBuffer<T> {
@@ -81,12 +90,12 @@ impl<T> SlabBuffer<T> {
     fn new(
         invalidation_k: Arc<AtomicUsize>,
         invocation_k: Arc<AtomicUsize>,
-        buffer: T,
-        source_slab_buffer: Arc<RwLock<Option<SlabBuffer<T>>>>,
+        internal_buffer: &InternalBuffer<T>,
+        source_slab_buffer: Arc<RwLock<Option<InternalBuffer<T>>>>,
     ) -> Self {
         SlabBuffer {
-            buffer: buffer.into(),
-            buffer_creation_k: invalidation_k.load(std::sync::atomic::Ordering::Relaxed),
+            buffer: internal_buffer.buffer.clone(),
+            buffer_creation_k: internal_buffer.creation_k,
             slab_invalidation_k: invalidation_k,
             slab_commit_invocation_k: invocation_k,
             source_slab_buffer,
@@ -199,7 +208,12 @@ impl<T> SlabBuffer<T> {
             // is created, source_slab_buffer will always be Some.
             let updated_buffer = {
                 let guard = self.source_slab_buffer.read().unwrap();
-                let updated_buffer = guard.as_ref().unwrap().clone();
+                let updated_buffer = SlabBuffer::new(
+                    self.slab_invalidation_k.clone(),
+                    self.slab_commit_invocation_k.clone(),
+                    guard.as_ref().unwrap(),
+                    self.source_slab_buffer.clone(),
+                );
                 debug_assert!(updated_buffer.is_valid());
                 updated_buffer
             };
@@ -230,7 +244,7 @@ pub struct SlabAllocator<Runtime: IsRuntime> {
     len: Arc<AtomicUsize>,
     capacity: Arc<AtomicUsize>,
     needs_expansion: Arc<AtomicBool>,
-    buffer: Arc<RwLock<Option<SlabBuffer<Runtime::Buffer>>>>,
+    buffer: Arc<RwLock<Option<InternalBuffer<Runtime::Buffer>>>>,
     buffer_usages: Runtime::BufferUsages,
     // The value of invocation_k when the last buffer invalidation happened
     invalidation_k: Arc<AtomicUsize>,
@@ -403,7 +417,17 @@ impl<R: IsRuntime> SlabAllocator<R> {
     /// Return the internal buffer used by this slab, if it has
     /// been created.
     pub fn get_buffer(&self) -> Option<SlabBuffer<R::Buffer>> {
-        self.buffer.read().unwrap().clone()
+        let guard = self.buffer.read().unwrap();
+        guard.as_ref().map(|buffer| self.slab_buffer(buffer))
+    }
+
+    fn slab_buffer(&self, internal_buffer: &InternalBuffer<R::Buffer>) -> SlabBuffer<R::Buffer> {
+        SlabBuffer::new(
+            self.invalidation_k.clone(),
+            self.invocation_k.clone(),
+            internal_buffer,
+            self.buffer.clone(),
+        )
     }
 
     /// Recreate the internal buffer, writing the contents of the previous buffer (if it
@@ -417,20 +441,17 @@ impl<R: IsRuntime> SlabAllocator<R> {
         let mut guard = self.buffer.write().unwrap();
         if let Some(old_buffer) = guard.take() {
             self.runtime
-                .buffer_copy(&old_buffer, &new_buffer, self.label.as_deref());
+                .buffer_copy(&old_buffer.buffer, &new_buffer, self.label.as_deref());
         }
         // Invalidate the old buffer while holding the guard, so that the new one is
         // available to all that find out.
         self.invalidation_k
             .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
-        let slab_buffer = SlabBuffer::new(
-            self.invalidation_k.clone(),
-            self.invocation_k.clone(),
-            new_buffer,
-            self.buffer.clone(),
-        );
-        *guard = Some(slab_buffer.clone());
-        slab_buffer
+        let internal_buffer = guard.insert(InternalBuffer {
+            creation_k: invocation_k,
+            buffer: new_buffer.into(),
+        });
+        self.slab_buffer(internal_buffer)
     }
 
     /// Stage a new value that lives on the GPU _and_ CPU.
-- 
2.43.0


From 80caa4211f85466b308302f41f7d5beae90c3c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 23/26] fix: writing an item that doesn't fit into the slab
 returns the same index

As documented. It panicked after a partial write, or claimed success, for most
types.
---
 crates/crabslab/src/slab.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/crabslab/src/slab.rs b/crates/crabslab/src/slab.rs
index be22cef..59f70de 100644
--- a/crates/crabslab/src/slab.rs
+++ b/crates/crabslab/src/slab.rs
@@ -113,13 +113,18 @@ impl Slab for [u32] {
     }
 
     fn write_indexed<T: SlabItem>(&mut self, t: &T, index: usize) -> usize {
+        // Items are written unchecked on the GPU
+        #[cfg(not(target_arch = "spirv"))]
+        if index > self.len() || T::SLAB_SIZE > self.len() - index {
+            return index;
+        }
         t.write_slab(index, self)
     }
 
     fn write_indexed_slice<T: SlabItem>(&mut self, t: &[T], index: usize) -> usize {
         let mut index = index;
         for item in t {
-            index = item.write_slab(index, self);
+            index = self.write_indexed(item, index);
         }
         index
     }
-- 
2.43.0


From 2e30c26e2f700829d38872d71c506f2415b11248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 24/26] fix: reading an empty range of a wgpu buffer returns
 nothing instead of panicking

---
 crates/craballoc/src/runtime.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/craballoc/src/runtime.rs b/crates/craballoc/src/runtime.rs
index e404598..5e9bde3 100644
--- a/crates/craballoc/src/runtime.rs
+++ b/crates/craballoc/src/runtime.rs
@@ -249,6 +249,10 @@ impl IsRuntime for WgpuRuntime {
         range: impl std::ops::RangeBounds<usize>,
     ) -> Result<Vec<u32>, SlabAllocatorError> {
         let (start, _end, len) = crate::runtime::range_to_indices_and_len(buffer_len, range);
+        if len == 0 {
+            // An empty range can neither be copied into a buffer nor mapped
+            return Ok(vec![]);
+        }
         let byte_offset = start * std::mem::size_of::<u32>();
         let length = len * std::mem::size_of::<u32>();
         let output_buffer_size = length as u64;
-- 
2.43.0


From 6611c5494496df05f931aa47dff7025f770e7bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 25/26] fix: reading to the end of a slab stops at the end of
 its buffer

---
 crates/craballoc/src/slab/wgpu_slab.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/slab/wgpu_slab.rs b/crates/craballoc/src/slab/wgpu_slab.rs
index 8982657..1a127ba 100644
--- a/crates/craballoc/src/slab/wgpu_slab.rs
+++ b/crates/craballoc/src/slab/wgpu_slab.rs
@@ -17,8 +17,10 @@ impl SlabAllocator<WgpuRuntime> {
         range: impl std::ops::RangeBounds<usize>,
     ) -> Result<Vec<u32>, SlabAllocatorError> {
         let internal_buffer = self.get_buffer().context(NoInternalBufferSnafu)?;
+        // Values created since the last commit may lie beyond the end of the buffer
+        let buffer_len = internal_buffer.size() as usize / std::mem::size_of::<u32>();
         self.runtime
-            .buffer_read(&internal_buffer, self.len(), range)
+            .buffer_read(&internal_buffer, self.len().min(buffer_len), range)
             .await
     }
 
-- 
2.43.0


From e2fb04c3bff3c281b5983b48d48048ca587ba6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 26/26] fix: derive SlabItem for types with inherent items of
 the same names

---
 crates/crabslab-derive/src/lib.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 86cea50..09e9b84 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -337,8 +337,9 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
         .collect();
     let variant_writes = variants.iter().map(|variant| {
         let bindings = variant.fields.bindings();
+        let field_tys = &variant.fields.field_tys;
         quote! {
-            #(let index = #bindings.write_slab(index, slab);)*
+            #(let index = <#field_tys as crabslab::SlabItem>::write_slab(#bindings, index, slab);)*
         }
     });
     let write_variants_matches: Vec<proc_macro2::TokenStream> = variants
@@ -372,7 +373,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
             quote! {
                 #pat_match => {
                     let __hash: u32 = #hash;
-                    let index = __hash.write_slab(index, slab);
+                    let index = <u32 as crabslab::SlabItem>::write_slab(&__hash, index, slab);
                     #write
                     original_index + slab_size
                 }
@@ -388,7 +389,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
 
             fn read_slab(mut index: usize, slab: &[u32]) -> Self {
                 // Read the hash to tell which variant we're in.
-                let hash =  u32::read_slab(index, slab);
+                let hash = <u32 as crabslab::SlabItem>::read_slab(index, slab);
                 index += 1;
                 match hash {
                     #(#read_variants_matches)*
@@ -397,7 +398,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
             }
 
             fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
-                let slab_size = Self::SLAB_SIZE;
+                let slab_size = <Self as crabslab::SlabItem>::SLAB_SIZE;
                 let original_index = index;
                 match self {
                     #(#write_variants_matches)*
@@ -467,13 +468,11 @@ fn derive_from_slab_struct(
     };
     let write_index_field_names = field_names
         .iter()
-        .map(|name| match name {
-            FieldName::Index(i) => quote! {
-                let index = self.#i.write_slab(index, slab);
-            },
-            FieldName::Ident(field) => quote! {
-                let index = self.#field.write_slab(index, slab);
-            },
+        .zip(field_tys.iter())
+        .map(|(name, ty)| {
+            quote! {
+                let index = <#ty as crabslab::SlabItem>::write_slab(&self.#name, index, slab);
+            }
         })
         .collect::<Vec<_>>();
 
-- 
2.43.0

