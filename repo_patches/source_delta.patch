From 8542375bed348236aa31e3fa8dc82462162d5337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 01/15] fix: SingletonMapStorage::keys yields no key for an
 empty map

---
 src/map/storage/singleton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map/storage/singleton.rs b/src/map/storage/singleton.rs
index e01c930..32d1a19 100644
--- a/src/map/storage/singleton.rs
+++ b/src/map/storage/singleton.rs
@@ -120,7 +120,7 @@ where
 
     #[inline]
     fn keys(&self) -> Self::Keys<'_> {
-        Some(K::default()).into_iter()
+        self.inner.as_ref().map(|_| K::default()).into_iter()
     }
 
     #[inline]
-- 
2.43.0


From 4bbadb325071cdf9324b0ddd484a2adfca3f2b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 02/15] fix: BooleanSetStorage::insert returns true when the
 value was absent

---
 src/set/storage/boolean.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/boolean.rs b/src/set/storage/boolean.rs
index 3737358..b83fe87 100644
--- a/src/set/storage/boolean.rs
+++ b/src/set/storage/boolean.rs
@@ -138,7 +138,7 @@ impl SetStorage<bool> for BooleanSetStorage {
     #[inline]
     fn insert(&mut self, value: bool) -> bool {
         let update = self.bits | to_bits(value);
-        test(mem::replace(&mut self.bits, update), value)
+        !test(mem::replace(&mut self.bits, update), value)
     }
 
     #[inline]
-- 
2.43.0


From be60ab588c13278ea9e67b8322601731050707ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 03/15] fix: BooleanSetStorage::remove returns whether the
 value itself was present

---
 src/set/storage/boolean.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/set/storage/boolean.rs b/src/set/storage/boolean.rs
index b83fe87..af747c9 100644
--- a/src/set/storage/boolean.rs
+++ b/src/set/storage/boolean.rs
@@ -148,9 +148,8 @@ impl SetStorage<bool> for BooleanSetStorage {
 
     #[inline]
     fn remove(&mut self, value: bool) -> bool {
-        let value = to_bits(value);
-        let update = self.bits & !value;
-        mem::replace(&mut self.bits, update) != 0
+        let update = self.bits & !to_bits(value);
+        test(mem::replace(&mut self.bits, update), value)
     }
 
     #[inline]
-- 
2.43.0


From 49939e335bba55fa6d74f527abfe93054940b71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 04/15] fix: OptionSetStorage::insert(None) returns true when
 None was absent

---
 src/set/storage/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/option.rs b/src/set/storage/option.rs
index 5fe0fbb..02f2832 100644
--- a/src/set/storage/option.rs
+++ b/src/set/storage/option.rs
@@ -125,7 +125,7 @@ where
     fn insert(&mut self, value: Option<T>) -> bool {
         match value {
             Some(value) => self.some.insert(value),
-            None => mem::replace(&mut self.none, true),
+            None => !mem::replace(&mut self.none, true),
         }
     }
 
-- 
2.43.0


From e8c54f129f3b006e8f97656db567df0bce83af5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 05/15] fix: OptionSetStorage::is_empty takes None into account
 the right way round

---
 src/set/storage/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/option.rs b/src/set/storage/option.rs
index 02f2832..fef1e51 100644
--- a/src/set/storage/option.rs
+++ b/src/set/storage/option.rs
@@ -118,7 +118,7 @@ where
 
     #[inline]
     fn is_empty(&self) -> bool {
-        self.some.is_empty() && self.none
+        self.some.is_empty() && !self.none
     }
 
     #[inline]
-- 
2.43.0


From fa3a910e7a127d0630642769fe3c1d1633a43d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:00 +0000
Subject: [PATCH 06/15] fix: SingletonSetStorage::retain leaves an empty set
 empty

---
 src/set/storage/singleton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/singleton.rs b/src/set/storage/singleton.rs
index f52cb4e..bae5a70 100644
--- a/src/set/storage/singleton.rs
+++ b/src/set/storage/singleton.rs
@@ -51,7 +51,7 @@ where
     where
         F: FnMut(T) -> bool,
     {
-        self.is_set = func(T::default());
+        self.is_set = self.is_set && func(T::default());
     }
 
     #[inline]
-- 
2.43.0


From a4ef345296864c452e28341e65c3d03d754d1feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 07/15] fix: from_raw discards bits which do not correspond to
 a variant

---
 fixed-map-derive/src/unit_variants.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index 20c3558..62e89d1 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -524,7 +524,8 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
 
             #[inline]
             fn from_raw(data: #ty) -> #set_storage {
-                #set_storage { data }
+                // Discard bits which do not correspond to any variant.
+                #set_storage { data: data & (0 #(| #numbers)*) }
             }
         }
     })
-- 
2.43.0


From 5a889a62a859b65a91f4ed0485f40c8ae9fdafbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 08/15] fix: bitset sets compare in declaration order like
 every other set

---
 fixed-map-derive/src/unit_variants.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index 62e89d1..a819113 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -391,7 +391,9 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
     let copy_t = cx.toks.copy_t();
     let eq_t = cx.toks.eq_t();
     let hash_t = cx.toks.hash_t();
+    let iterator_cmp_bool = cx.toks.iterator_cmp_bool();
     let iterator_flatten = cx.toks.iterator_flatten();
+    let iterator_partial_cmp_bool = cx.toks.iterator_partial_cmp_bool();
     let mem = cx.toks.mem();
     let option = cx.toks.option();
     let ord_t = cx.toks.ord_t();
@@ -428,7 +430,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         impl #partial_ord_t for #set_storage {
             #[inline]
             fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
-                #partial_ord_t::partial_cmp(&self.data, &other.data)
+                #iterator_partial_cmp_bool(&[#(self.data & #numbers != 0),*], &[#(other.data & #numbers != 0),*])
             }
         }
 
@@ -436,7 +438,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         impl #ord_t for #set_storage {
             #[inline]
             fn cmp(&self, other: &Self) -> #ordering {
-                #ord_t::cmp(&self.data, &other.data)
+                #iterator_cmp_bool(&[#(self.data & #numbers != 0),*], &[#(other.data & #numbers != 0),*])
             }
         }
 
-- 
2.43.0


From 4357e562c8dffc3bb3397aa3c0f0caa23a848245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:07 +0000
Subject: [PATCH 09/15] fix: derive(Key) reports every error it collected

---
 fixed-map-derive/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/lib.rs b/fixed-map-derive/src/lib.rs
index 365df0a..98af44c 100644
--- a/fixed-map-derive/src/lib.rs
+++ b/fixed-map-derive/src/lib.rs
@@ -37,12 +37,14 @@ pub fn storage_derive(input: proc_macro::TokenStream) -> proc_macro::TokenStream
     let cx = context::Ctxt::new(&tokens, &ast, &lt);
 
     let result = impl_storage(&cx);
+    let errors = cx.into_errors();
 
-    if let Ok(g) = result {
+    // NB: Errors might've been reported even though an implementation could be
+    // generated.
+    if let (Ok(g), true) = (result, errors.is_empty()) {
         return g.into();
     }
 
-    let errors = cx.into_errors();
     let compile_errors = errors.iter().map(syn::Error::to_compile_error);
     quote!(#(#compile_errors)*).into()
 }
-- 
2.43.0


From 4391947e3081dc256b8ea5b2bd874b709544665c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:07 +0000
Subject: [PATCH 10/15] fix: derive(Key) reports tuple variants without fields
 instead of panicking

---
 fixed-map-derive/src/any_variants.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 3ff6378..2f48e23 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -30,15 +30,14 @@ pub(crate) fn implement(cx: &Ctxt<'_>, en: &syn::DataEnum) -> Result<TokenStream
                 Kind::Simple
             }
             syn::Fields::Unnamed(unnamed) => {
-                if unnamed.unnamed.len() > 1 {
+                let (Some(element), 1) = (unnamed.unnamed.first(), unnamed.unnamed.len()) else {
                     cx.span_error(
                         variant.fields.span(),
                         "unnamed variants must have a single field",
                     );
                     continue;
-                }
+                };
 
-                let element = unnamed.unnamed.first().expect("Expected one element");
                 let map_storage = quote!(<#element as #key_t>::MapStorage::<V>);
                 let as_map_storage = quote!(<#map_storage as #map_storage_t<#element, V>>);
                 let set_storage = quote!(<#element as #key_t>::SetStorage);
-- 
2.43.0


From 512ffa9d43b610af0813fa7ca9f5b5afe5a83266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 11/15] fix: code generated by derive(Key) does not depend on
 the methods in scope

---
 fixed-map-derive/src/any_variants.rs  | 24 ++++++++----------------
 fixed-map-derive/src/unit_variants.rs |  4 ++--
 2 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 2f48e23..7395289 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -247,7 +247,7 @@ fn impl_map_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
             Kind::Complex(Complex { as_map_storage, .. }) => {
                 quote!(#as_map_storage::len(&self.#name))
             }
-            Kind::Simple => quote!(usize::from(#option::is_some(&self.#name))),
+            Kind::Simple => quote!(#option::is_some(&self.#name) as usize),
         });
 
         output.items.extend(quote! {
@@ -530,7 +530,7 @@ fn impl_set_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
             Kind::Complex(Complex { as_set_storage, .. }) => {
                 quote!(#as_set_storage::len(&self.#name))
             }
-            Kind::Simple => quote!(usize::from(self.#name)),
+            Kind::Simple => quote!(self.#name as usize),
         });
 
         output.items.extend(quote! {
@@ -1187,13 +1187,9 @@ fn map_storage_iter_mut(
                 field_decls.push(quote!(#name: #option<&#lt mut V>));
                 init.push(quote!(#name: #option::as_mut(&mut self.#name)));
             }
-            Kind::Complex(Complex {
-                as_map_storage,
-                map_storage,
-                ..
-            }) => {
+            Kind::Complex(Complex { as_map_storage, .. }) => {
                 field_decls.push(quote!(#name: #as_map_storage::#assoc_type<#lt>));
-                init.push(quote!(#name: #map_storage::iter_mut(&mut self.#name)));
+                init.push(quote!(#name: #as_map_storage::iter_mut(&mut self.#name)));
             }
         }
     }
@@ -1418,13 +1414,9 @@ fn map_storage_into_iter(
                 field_decls.push(quote!(#name: #option<V>));
                 init.push(quote!(#name: self.#name));
             }
-            Kind::Complex(Complex {
-                as_map_storage,
-                map_storage,
-                ..
-            }) => {
+            Kind::Complex(Complex { as_map_storage, .. }) => {
                 field_decls.push(quote!(#name: #as_map_storage::#assoc_type));
-                init.push(quote!(#name: #map_storage::into_iter(self.#name)));
+                init.push(quote!(#name: #as_map_storage::into_iter(self.#name)));
             }
         }
     }
@@ -1807,7 +1799,7 @@ impl ToTokens for IteratorNext {
                     _ => break,
                 }
 
-                self.start = usize::min(self.start.wrapping_add(1), self.end);
+                self.start = ::core::cmp::Ord::min(self.start.wrapping_add(1), self.end);
             }
         });
     }
@@ -1842,7 +1834,7 @@ impl ToTokens for IteratorNextBack {
                     _ => break,
                 }
 
-                self.end = usize::max(next, self.start);
+                self.end = ::core::cmp::Ord::max(next, self.start);
             }
         });
     }
diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index a819113..558f4ba 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -256,7 +256,7 @@ fn impl_map(
             #[inline]
             fn len(&self) -> usize {
                 let [#(#names),*] = &self.data;
-                0 #(+ usize::from(#option::is_some(#names)))*
+                0 #(+ #option::is_some(#names) as usize)*
             }
 
             #[inline]
@@ -625,7 +625,7 @@ fn impl_set(
             #[inline]
             fn len(&self) -> usize {
                 let [#(#names),*] = &self.data;
-                0 #(+ usize::from(*#names))*
+                0 #(+ *#names as usize)*
             }
 
             #[inline]
-- 
2.43.0


From 54b341b9ae3b88f8108ea5bf3eb4f15ebac62b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 12/15] fix: derive(Key) supports variants named v

---
 fixed-map-derive/src/any_variants.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/fixed-map-derive/src/any_variants.rs b/fixed-map-derive/src/any_variants.rs
index 7395289..81e010b 100644
--- a/fixed-map-derive/src/any_variants.rs
+++ b/fixed-map-derive/src/any_variants.rs
@@ -43,8 +43,11 @@ pub(crate) fn implement(cx: &Ctxt<'_>, en: &syn::DataEnum) -> Result<TokenStream
                 let set_storage = quote!(<#element as #key_t>::SetStorage);
                 let as_set_storage = quote!(<#set_storage as #set_storage_t<#element>>);
 
-                let pat =
-                    build_tuple_struct_pat(ident, var, Some(syn::Ident::new("v", unnamed.span())));
+                let pat = build_tuple_struct_pat(
+                    ident,
+                    var,
+                    Some(syn::Ident::new("__v", Span::call_site())),
+                );
 
                 fields.patterns.push(pat);
 
@@ -227,7 +230,7 @@ fn impl_map_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
 
         let insert = fields.iter().map(|Field { name, kind, .. }| match kind {
             Kind::Complex(Complex { as_map_storage, .. }) => {
-                quote!(#as_map_storage::insert(&mut self.#name, v, value))
+                quote!(#as_map_storage::insert(&mut self.#name, __v, value))
             }
             Kind::Simple => quote!(#option::replace(&mut self.#name, value)),
         });
@@ -279,7 +282,7 @@ fn impl_map_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
 
         let contains_key = fields.iter().map(|Field { name, kind, .. }| match kind {
             Kind::Complex(Complex { as_map_storage, .. }) => {
-                quote!(#as_map_storage::contains_key(&self.#name, v))
+                quote!(#as_map_storage::contains_key(&self.#name, __v))
             }
             Kind::Simple => quote!(#option::is_some(&self.#name)),
         });
@@ -299,7 +302,7 @@ fn impl_map_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
 
         let get = fields.iter().map(|Field { name, kind, .. }| match kind {
             Kind::Complex(Complex { as_map_storage, .. }) => {
-                quote!(#as_map_storage::get(&self.#name, v))
+                quote!(#as_map_storage::get(&self.#name, __v))
             }
             Kind::Simple => quote!(#option::as_ref(&self.#name)),
         });
@@ -319,7 +322,7 @@ fn impl_map_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
 
         let get_mut = fields.iter().map(|Field { name, kind, .. }| match kind {
             Kind::Complex(Complex { as_map_storage, .. }) => {
-                quote!(#as_map_storage::get_mut(&mut self.#name, v))
+                quote!(#as_map_storage::get_mut(&mut self.#name, __v))
             }
             Kind::Simple => quote!(#option::as_mut(&mut self.#name)),
         });
@@ -337,7 +340,7 @@ fn impl_map_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
     {
         let remove = fields.iter().map(|Field { name, kind, .. }| match kind {
             Kind::Complex(Complex { as_map_storage, .. }) => {
-                quote!(#as_map_storage::remove(&mut self.#name, v))
+                quote!(#as_map_storage::remove(&mut self.#name, __v))
             }
             Kind::Simple => quote!(#option::take(&mut self.#name)),
         });
@@ -510,7 +513,7 @@ fn impl_set_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
 
         let insert = fields.iter().map(|Field { name, kind, .. }| match kind {
             Kind::Complex(Complex { as_set_storage, .. }) => {
-                quote!(#as_set_storage::insert(&mut self.#name, v))
+                quote!(#as_set_storage::insert(&mut self.#name, __v))
             }
             Kind::Simple => quote!(!#mem::replace(&mut self.#name, true)),
         });
@@ -562,7 +565,7 @@ fn impl_set_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
 
         let contains = fields.iter().map(|Field { name, kind, .. }| match kind {
             Kind::Complex(Complex { as_set_storage, .. }) => {
-                quote!(#as_set_storage::contains(&self.#name, v))
+                quote!(#as_set_storage::contains(&self.#name, __v))
             }
             Kind::Simple => quote!(self.#name),
         });
@@ -580,7 +583,7 @@ fn impl_set_storage(cx: &Ctxt<'_>, fields: &Fields<'_>) -> Result<(syn::Ident, T
     {
         let remove = fields.iter().map(|Field { name, kind, .. }| match kind {
             Kind::Complex(Complex { as_set_storage, .. }) => {
-                quote!(#as_set_storage::remove(&mut self.#name, v))
+                quote!(#as_set_storage::remove(&mut self.#name, __v))
             }
             Kind::Simple => quote!(#mem::replace(&mut self.#name, false)),
         });
-- 
2.43.0


From fc76bf06fe9f8ad055bff9e00a589cf4fb1fc303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 13/15] fix: code generated by derive(Key) does not depend on
 the names in scope

---
 fixed-map-derive/src/lib.rs | 63 +++++++++++++++++++++++++++++++++++--
 1 file changed, 60 insertions(+), 3 deletions(-)

diff --git a/fixed-map-derive/src/lib.rs b/fixed-map-derive/src/lib.rs
index 98af44c..669e57f 100644
--- a/fixed-map-derive/src/lib.rs
+++ b/fixed-map-derive/src/lib.rs
@@ -15,7 +15,7 @@
 #![allow(clippy::unnecessary_wraps)]
 #![allow(missing_docs)]
 
-use proc_macro2::TokenStream;
+use proc_macro2::{Ident, Span, TokenStream};
 use quote::quote;
 use syn::spanned::Spanned;
 use syn::{Data, DataEnum, DeriveInput, Fields};
@@ -29,7 +29,8 @@ mod unit_variants;
 /// See <https://docs.rs/fixed-map>.
 #[proc_macro_derive(Key, attributes(key))]
 pub fn storage_derive(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
-    let ast = syn::parse_macro_input!(input as DeriveInput);
+    let mut ast = syn::parse_macro_input!(input as DeriveInput);
+    let aliases = alias_types(&mut ast);
 
     let lt = syn::Lifetime::new("'a", ast.span());
     let crate_prefix = context::leading_path(["fixed_map"]);
@@ -42,13 +43,69 @@ pub fn storage_derive(input: proc_macro::TokenStream) -> proc_macro::TokenStream
     // NB: Errors might've been reported even though an implementation could be
     // generated.
     if let (Ok(g), true) = (result, errors.is_empty()) {
-        return g.into();
+        return quote! {
+            const _: () = {
+                #aliases
+
+                const _: () = {
+                    use ::core::{
+                        clone::Clone,
+                        ops::FnMut,
+                        option::Option::{self, None, Some},
+                        primitive::{bool, u128, u16, u32, u64, u8, usize},
+                    };
+
+                    #g
+                };
+            };
+        }
+        .into();
     }
 
     let compile_errors = errors.iter().map(syn::Error::to_compile_error);
     quote!(#(#compile_errors)*).into()
 }
 
+/// Replace the types named by the user with aliases, which are to be defined
+/// around the generated code. This way neither items nor type parameters
+/// introduced by the generated code can be mistaken for them.
+fn alias_types(ast: &mut DeriveInput) -> TokenStream {
+    let mut aliases = TokenStream::new();
+
+    // Resolved at the call site lints know that they are looking at generated
+    // code, regardless of where it's pointing.
+    let respan = |span: Span| span.resolved_at(Span::call_site());
+
+    let ident = &mut ast.ident;
+    ident.set_span(respan(ident.span()));
+    let alias = Ident::new("__FixedMapKey", ident.span());
+    aliases.extend(quote!(type #alias = #ident;));
+    ast.ident = alias;
+
+    let Data::Enum(en) = &mut ast.data else {
+        return aliases;
+    };
+
+    for (index, variant) in en.variants.iter_mut().enumerate() {
+        let ident = &mut variant.ident;
+        ident.set_span(respan(ident.span()));
+
+        let Fields::Unnamed(unnamed) = &mut variant.fields else {
+            continue;
+        };
+
+        for field in &mut unnamed.unnamed {
+            let ty = &field.ty;
+            let alias = Ident::new(&format!("__FixedMapElement{index}"), respan(ty.span()));
+            aliases.extend(quote!(type #alias = #ty;));
+            field.ty = syn::parse_quote!(#alias);
+            field.attrs.clear();
+        }
+    }
+
+    aliases
+}
+
 fn impl_storage(cx: &context::Ctxt<'_>) -> Result<TokenStream, ()> {
     let opts = attrs::parse(cx)?;
 
-- 
2.43.0


From 2644058f909a86f2694cf0a81a2c6a45b382130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 14/15] fix: derive(Key) reports key attributes where there are
 none

---
 fixed-map-derive/src/attrs.rs | 15 +++++++++++++++
 fixed-map-derive/src/lib.rs   |  3 ++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/fixed-map-derive/src/attrs.rs b/fixed-map-derive/src/attrs.rs
index 92c35c9..f18cdd7 100644
--- a/fixed-map-derive/src/attrs.rs
+++ b/fixed-map-derive/src/attrs.rs
@@ -1,3 +1,5 @@
+use syn::spanned::Spanned;
+
 use crate::context::{Ctxt, Opts};
 use crate::symbol;
 
@@ -25,5 +27,18 @@ pub(crate) fn parse(cx: &Ctxt<'_>) -> Result<Opts, ()> {
         }
     }
 
+    // NB: There are only attributes for containers.
+    if let syn::Data::Enum(en) = &cx.ast.data {
+        for variant in &en.variants {
+            let fields = variant.fields.iter().flat_map(|f| &f.attrs);
+
+            for attr in variant.attrs.iter().chain(fields) {
+                if attr.path() == symbol::KEY {
+                    cx.error(syn::Error::new(attr.span(), "Unsupported attribute"));
+                }
+            }
+        }
+    }
+
     Ok(opts)
 }
diff --git a/fixed-map-derive/src/lib.rs b/fixed-map-derive/src/lib.rs
index 669e57f..52ce421 100644
--- a/fixed-map-derive/src/lib.rs
+++ b/fixed-map-derive/src/lib.rs
@@ -99,7 +99,8 @@ fn alias_types(ast: &mut DeriveInput) -> TokenStream {
             let alias = Ident::new(&format!("__FixedMapElement{index}"), respan(ty.span()));
             aliases.extend(quote!(type #alias = #ty;));
             field.ty = syn::parse_quote!(#alias);
-            field.attrs.clear();
+            // Left for it to be reported.
+            field.attrs.retain(|attr| attr.path() == symbol::KEY);
         }
     }
 
-- 
2.43.0


From 71e57f2eded776f4ca9cc67121dc079b758e4c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 15/15] fix: derive(Key) reports bitsets over variants which
 have no bit

---
 fixed-map-derive/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fixed-map-derive/src/lib.rs b/fixed-map-derive/src/lib.rs
index 52ce421..32466e5 100644
--- a/fixed-map-derive/src/lib.rs
+++ b/fixed-map-derive/src/lib.rs
@@ -114,6 +114,11 @@ fn impl_storage(cx: &context::Ctxt<'_>) -> Result<TokenStream, ()> {
         if is_all_unit_variants(en) {
             unit_variants::implement(cx, &opts, en)
         } else {
+            if let Some(span) = opts.bitset {
+                cx.span_error(span, "bitset is only supported for unit variants");
+                return Err(());
+            }
+
             any_variants::implement(cx, en)
         }
     } else {
-- 
2.43.0

