From b8d7cdcaa31eea827484c8cf29edecb13a81a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 01/74] fix: do not panic on mapping annotations with a single
 type parameter

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 50d259b..a92e4cf 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -157,7 +157,10 @@ impl Type {
                             // debug_assert_eq!(inner_types.len(), 2);
                             Self::PyDict {
                                 key_type: Box::new(inner_types[0].clone()),
-                                value_type: Box::new(inner_types[1].clone()),
+                                // Some mappings have only one type parameter (e.g. `typing.Counter`)
+                                value_type: Box::new(
+                                    inner_types.get(1).cloned().unwrap_or(Self::Unknown),
+                                ),
                             }
                         }
                         Self::PyFrozenSet(..) => {
@@ -269,7 +272,7 @@ impl std::str::FromStr for Type {
                     .collect::<Result<Vec<_>>>()?;
                 Self::PyDict {
                     key_type: Box::new(inner_types[0].clone()),
-                    value_type: Box::new(inner_types[1].clone()),
+                    value_type: Box::new(inner_types.get(1).cloned().unwrap_or(Self::Unknown)),
                 }
             }
             "dict" | "Dict" | "Mapping" => Self::PyDict {
-- 
2.43.0


From 6ca4bd70bf11dd52a15254dc28b249e6233680df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 02/74] fix: do not overflow on annotation strings with
 unbalanced brackets

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index a92e4cf..ccb6bda 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -493,13 +493,14 @@ fn repair_complex_sequence(sequence: &mut Vec<String>, separator: char) {
     'outer: while !traversed_all_elements {
         traversed_all_elements = true;
         'inner: for i in start_index..(sequence.len() - 1) {
-            let mut n_scopes = sequence[i].matches('[').count() - sequence[i].matches(']').count();
+            let count_scopes =
+                |s: &str| s.matches('[').count() as isize - s.matches(']').count() as isize;
+            let mut n_scopes = count_scopes(&sequence[i]);
             if n_scopes == 0 {
                 continue;
             }
             for j in (i + 1)..sequence.len() {
-                n_scopes += sequence[j].matches('[').count();
-                n_scopes -= sequence[j].matches(']').count();
+                n_scopes += count_scopes(&sequence[j]);
                 if n_scopes == 0 {
                     let mut new_element = sequence[i].clone();
                     for relevant_element in sequence.iter().take(j + 1).skip(i + 1) {
-- 
2.43.0


From e401b265eff869431ed5656240c2a2a6899fd94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:41 +0000
Subject: [PATCH 03/74] fix: repair all nested generics of an annotation
 string, not only the first ones

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index ccb6bda..db05736 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -508,7 +508,7 @@ fn repair_complex_sequence(sequence: &mut Vec<String>, separator: char) {
                     }
                     sequence[i] = new_element;
                     sequence.drain((i + 1)..=j);
-                    if j < sequence.len() - 1 {
+                    if i < sequence.len() - 1 {
                         traversed_all_elements = false;
                         start_index = i;
                         break 'inner;
-- 
2.43.0


From 0f8bb282a2573f3e690f2998f4644869b9ecf5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:43 +0000
Subject: [PATCH 04/74] fix: do not treat a union as optional when None is only
 nested in one of its variants

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index db05736..5ecc822 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -228,14 +228,15 @@ impl std::str::FromStr for Type {
 
             // Enums
             optional
-                if optional.matches('|').count() == 1 && optional.matches("None").count() == 1 =>
+                if optional.matches('|').count() == 1
+                    && optional.split('|').any(|x| x.trim() == "None") =>
             {
                 let inner_type = Self::from_str(
                     optional
                         .split('|')
                         .map(str::trim)
                         .find(|x| *x != "None")
-                        .unwrap_or_else(|| unreachable!()),
+                        .unwrap_or("None"),
                 )?;
                 Self::Optional(Box::new(inner_type))
             }
-- 
2.43.0


From 52fe12e2abd0faebbfea031ca91bb2db0de98301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:44 +0000
Subject: [PATCH 05/74] fix: map Type[T] to a type object instead of an
 instance of T

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 5ecc822..6e3d6cb 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -191,10 +191,6 @@ impl Type {
                                 ),
                             }
                         }
-                        Self::PyType => {
-                            // debug_assert_eq!(inner_types.len(), 1);
-                            inner_types[0].clone()
-                        }
                         _ => {
                             // TODO: Handle other types with inner types if useful (e.g. Generator)
                             wrapping_type
@@ -426,12 +422,7 @@ impl std::str::FromStr for Type {
             #[cfg(not(PyPy))]
             "super" => Self::PySuper,
             "traceback" => Self::PyTraceback,
-            typ if typ.starts_with("type[") && typ.ends_with(']') => Self::from_str(
-                typ.strip_prefix("type[")
-                    .unwrap_or_else(|| unreachable!())
-                    .strip_suffix(']')
-                    .unwrap_or_else(|| unreachable!()),
-            )?,
+            typ if typ.starts_with("type[") && typ.ends_with(']') => Self::PyType,
 
             // classes
             class if class.starts_with("<class '") && class.ends_with("'>") => Self::from_str(
-- 
2.43.0


From c9d4b6248d1ad0a0de7f306607e244973f710928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:46 +0000
Subject: [PATCH 06/74] fix: do not use unhashable Rust types as keys of
 HashMap and HashSet

---
 pyo3_bindgen_engine/src/typing/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/mod.rs b/pyo3_bindgen_engine/src/typing/mod.rs
index c5ec710..192b765 100644
--- a/pyo3_bindgen_engine/src/typing/mod.rs
+++ b/pyo3_bindgen_engine/src/typing/mod.rs
@@ -79,11 +79,7 @@ impl Type {
                 | Self::IpV4Addr
                 | Self::IpV6Addr
                 | Self::Path
-                | Self::PyDelta
-                | Self::PyDict { .. }
-                | Self::PyFrozenSet(..)
                 | Self::PyLong
-                | Self::PySet(..)
                 | Self::PyString
         )
     }
-- 
2.43.0


From ceb8e286a60b9eafd649638c8defeff810b28e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:48 +0000
Subject: [PATCH 07/74] fix: map IP addresses to an existing Rust type that
 pyo3 can convert

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index d9f27f1..96fc563 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -202,8 +202,9 @@ impl Type {
             }
 
             // Additional types - std
-            Self::IpV4Addr => OutputType::new_identical(quote!(::std::net::IpV4Addr)),
-            Self::IpV6Addr => OutputType::new_identical(quote!(::std::net::IpV6Addr)),
+            Self::IpV4Addr | Self::IpV6Addr => {
+                OutputType::new_identical(quote!(::std::net::IpAddr))
+            }
             Self::Path => OutputType::new(quote!(::std::path::PathBuf), quote!(&::std::path::Path)),
             // TODO: Map `PySlice` to `std::ops::Range` if possible
             Self::PySlice => OutputType::new(
-- 
2.43.0


From aa147a527a739563a463e635f521e8a9da9537fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 08/74] fix: qualify Vec in the generated code, so that a
 Python class cannot shadow it

---
 pyo3_bindgen_engine/src/syntax/function.rs | 2 +-
 pyo3_bindgen_engine/src/typing/into_rs.rs  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index bf046c3..8639427 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -532,7 +532,7 @@ impl Function {
                 let n_args_fixed = positional_args_idents.len();
                 quote::quote! {
                     {
-                        let mut __internal__args = Vec::with_capacity(#n_args_fixed + ::pyo3::types::PyTupleMethods::len(#var_positional_args_ident));
+                        let mut __internal__args = ::std::vec::Vec::with_capacity(#n_args_fixed + ::pyo3::types::PyTupleMethods::len(#var_positional_args_ident));
                         __internal__args.extend([#(::pyo3::ToPyObject::to_object(&#positional_args_idents, py),)*]);
                         __internal__args.extend(::pyo3::types::PyTupleMethods::iter(#var_positional_args_ident).map(|__internal__arg| ::pyo3::ToPyObject::to_object(&__internal__arg, py)));
                         ::pyo3::types::PyTuple::new_bound(
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 96fc563..44d9b3a 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -106,7 +106,9 @@ impl Type {
 
             // Primitives
             Self::PyBool => OutputType::new_identical(quote!(bool)),
-            Self::PyByteArray | Self::PyBytes => OutputType::new(quote!(Vec<u8>), quote!(&[u8])),
+            Self::PyByteArray | Self::PyBytes => {
+                OutputType::new(quote!(::std::vec::Vec<u8>), quote!(&[u8]))
+            }
             Self::PyFloat => OutputType::new_identical(quote!(f64)),
             Self::PyLong => OutputType::new_identical(quote!(i64)),
             Self::PyString => OutputType::new(quote!(::std::string::String), quote!(&str)),
@@ -166,7 +168,7 @@ impl Type {
             }
             Self::PyList(inner_type) => {
                 let inner_type = inner_type.into_rs(local_types).owned;
-                OutputType::new(quote!(Vec<#inner_type>), quote!(&[#inner_type]))
+                OutputType::new(quote!(::std::vec::Vec<#inner_type>), quote!(&[#inner_type]))
             }
             Self::PySet(inner_type) => {
                 if inner_type.is_hashable() {
-- 
2.43.0


From 47f48f5149f3874b9b72169d3b9640c67075bef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 09/74] fix: do not generate Rust tuples that are too large for
 pyo3 to convert

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 44d9b3a..d59c30b 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -37,7 +37,7 @@ impl Type {
                     let #ident = ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py);
                 }
             }
-            Self::PyTuple(inner_types) if inner_types.len() < 2 => {
+            Self::PyTuple(inner_types) if !Self::is_fixed_size_tuple(inner_types) => {
                 quote! {
                     let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyTuple>>::into_py(#ident, py);
                     let #ident = #ident.bind(py);
@@ -185,7 +185,7 @@ impl Type {
                 }
             }
             Self::PyTuple(inner_types) => {
-                if inner_types.len() < 2 {
+                if !Self::is_fixed_size_tuple(&inner_types) {
                     OutputType::new(
                         quote!(::pyo3::Bound<'py, ::pyo3::types::PyTuple>),
                         quote!(impl ::pyo3::IntoPy<::pyo3::Py<::pyo3::types::PyTuple>>),
@@ -307,6 +307,12 @@ impl Type {
         }
     }
 
+    /// Determine if the tuple can be represented by a Rust tuple.
+    /// `pyo3` implements the conversions only for tuples with up to 12 elements.
+    fn is_fixed_size_tuple(inner_types: &[Self]) -> bool {
+        (2..=12).contains(&inner_types.len())
+    }
+
     fn map_type(self, local_types: &HashMap<Path, Path>) -> OutputType {
         // Get the inner name of the type
         let Self::Other(type_name) = self else {
-- 
2.43.0


From 61ea5ddae340e89c9db555ee9f40f1c07f75c73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:30 +0000
Subject: [PATCH 10/74] fix: pass bytes, bytearray, frozenset and tuple
 arguments as the annotated Python type

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index d59c30b..a829ba4 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -43,6 +43,22 @@ impl Type {
                     let #ident = #ident.bind(py);
                 }
             }
+            Self::PyTuple(inner_types)
+                if inner_types.len() == 2 && inner_types[1] == Self::PyEllipsis =>
+            {
+                quote! {
+                    let #ident = ::pyo3::types::PyTuple::new_bound(py, #ident);
+                }
+            }
+            Self::PyBytes => quote! {
+                let #ident = ::pyo3::types::PyBytes::new_bound(py, #ident);
+            },
+            Self::PyByteArray => quote! {
+                let #ident = ::pyo3::types::PyByteArray::new_bound(py, #ident);
+            },
+            Self::PyFrozenSet(inner_type) if inner_type.is_hashable() => quote! {
+                let #ident = ::pyo3::types::PyFrozenSet::new_bound(py, #ident)?;
+            },
             Self::PyAny
             | Self::Unknown
             | Self::Union(..)
-- 
2.43.0


From f0132e110c4392addc87ca23e173ef569901aab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 11/74] fix: pass None for optional dict arguments instead of
 an empty dict

---
 pyo3_bindgen_engine/src/syntax/function.rs | 16 +++++++++++++---
 pyo3_bindgen_engine/src/typing/into_rs.rs  | 22 ----------------------
 2 files changed, 13 insertions(+), 25 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 8639427..4679be8 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -376,9 +376,19 @@ impl Function {
             .iter()
             .zip(param_idents.iter())
             .map(|(param, param_ident)| {
-                param
-                    .annotation
-                    .preprocess_borrowed(param_ident, local_types)
+                if param.kind == ParameterKind::VarKeyword {
+                    quote::quote! {
+                        let #param_ident = if let Some(#param_ident) = #param_ident {
+                            ::pyo3::types::IntoPyDict::into_py_dict_bound(#param_ident, py)
+                        } else {
+                            ::pyo3::types::PyDict::new_bound(py)
+                        };
+                    }
+                } else {
+                    param
+                        .annotation
+                        .preprocess_borrowed(param_ident, local_types)
+                }
             })
             .collect();
         let param_types: Vec<proc_macro2::TokenStream> = self
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index a829ba4..f663e79 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -86,28 +86,6 @@ impl Type {
                     let #ident = #ident.bind(py);
                 }
             }
-            Self::Optional(inner_type) => match inner_type.as_ref() {
-                Self::PyDict {
-                    key_type,
-                    value_type,
-                } if !key_type.is_hashable()
-                    || value_type
-                        .clone()
-                        .into_rs(local_types)
-                        .owned
-                        .to_string()
-                        .contains("PyAny") =>
-                {
-                    quote! {
-                        let #ident = if let Some(#ident) = #ident {
-                            ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py)
-                        } else {
-                            ::pyo3::types::PyDict::new_bound(py)
-                        };
-                    }
-                }
-                _ => proc_macro2::TokenStream::new(),
-            },
             _ => proc_macro2::TokenStream::new(),
         }
     }
-- 
2.43.0


From 7f60f6531a2c145c1339742e2eda2eb805d2f7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:16 +0000
Subject: [PATCH 12/74] fix: do not drop parameters named `_`, which shifted
 all arguments that follow

---
 pyo3_bindgen_engine/src/syntax/function.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 4679be8..5a36e3c 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -102,9 +102,6 @@ impl Function {
                 })
                 .collect::<Result<Vec<_>>>()?;
 
-            // Retain only used parameters (discard unused `_` parameters)
-            parameters.retain(|param| param.name.as_rs() != "r#_");
-
             // Extract the return annotation of the function
             let return_annotation = {
                 let return_annotation =
-- 
2.43.0


From 2b5551def5c2db31f05f6871fd2ba03e8dd6f65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 13/74] fix: call methods without parameters through their
 class instead of through themselves

---
 pyo3_bindgen_engine/src/syntax/function.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 5a36e3c..dfa135f 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -236,10 +236,9 @@ impl Function {
                     eprintln!(
                             "WARN: Method '{name}' is marked as an instance method, but has no parameters. Changed to static method.",
                         );
-                    typ = FunctionType::Method {
-                        class_path: name.clone(),
-                        typ: MethodType::StaticMethod,
-                    };
+                    if let FunctionType::Method { typ, .. } = &mut typ {
+                        *typ = MethodType::StaticMethod;
+                    }
                 }
             };
 
-- 
2.43.0


From b32980a5b7f45d33958bb5fc084312c33926230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:20 +0000
Subject: [PATCH 14/74] fix: keep variadic parameters of methods that have no
 explicit `self`

---
 pyo3_bindgen_engine/src/syntax/function.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index dfa135f..0bfaea7 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -248,7 +248,16 @@ impl Function {
                 ..
             } = typ
             {
-                parameters.remove(0);
+                // Note: The instance might also be consumed by variadic arguments, in which case these must be preserved
+                if parameters.first().is_some_and(|param| {
+                    [
+                        ParameterKind::PositionalOnly,
+                        ParameterKind::PositionalOrKeyword,
+                    ]
+                    .contains(&param.kind)
+                }) {
+                    parameters.remove(0);
+                }
             };
 
             // If any of the parameters is still called 'self', do not handle the parameters
-- 
2.43.0


From 2fcefc07b36c95168a27fc62d64f3f784304870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:21 +0000
Subject: [PATCH 15/74] fix: do not panic on property setters with fewer than
 two parameters

---
 pyo3_bindgen_engine/src/syntax/property.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 3f89eff..5c1e61c 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -96,12 +96,17 @@ impl Property {
                                     .call_method0(pyo3::intern!(py, "values"))?
                                     .iter()?
                                     .nth(1)
-                                    .unwrap()?;
-                                let annotation = param.getattr(pyo3::intern!(py, "annotation"))?;
-                                if annotation.is(&param.getattr(pyo3::intern!(py, "empty"))?) {
-                                    Type::Unknown
+                                    .transpose()?;
+                                if let Some(param) = param {
+                                    let annotation =
+                                        param.getattr(pyo3::intern!(py, "annotation"))?;
+                                    if annotation.is(&param.getattr(pyo3::intern!(py, "empty"))?) {
+                                        Type::Unknown
+                                    } else {
+                                        annotation.try_into()?
+                                    }
                                 } else {
-                                    annotation.try_into()?
+                                    Type::Unknown
                                 }
                             };
                         } else {
-- 
2.43.0


From 613e4fd0ff880e863cfe26ecc7e55d3cb5af6672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:44 +0000
Subject: [PATCH 16/74] fix: use the annotation of the setter for the value of
 generated property setters

---
 pyo3_bindgen_engine/src/syntax/property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 5c1e61c..e28bc9e 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -320,11 +320,11 @@ impl Property {
             }
         };
         let param_name = self.name.name().as_py();
-        let param_preprocessing = self.annotation.preprocess_borrowed(
+        let param_preprocessing = self.setter_annotation.preprocess_borrowed(
             &syn::Ident::new("p_value", proc_macro2::Span::call_site()),
             local_types,
         );
-        let param_type = self.annotation.clone().into_rs_borrowed(local_types);
+        let param_type = self.setter_annotation.clone().into_rs_borrowed(local_types);
         match &self.owner {
             PropertyOwner::Module => {
                 let import = pyo3::Python::with_gil(|py| {
-- 
2.43.0


From fe20ff7220ddde4c4d8b849c3b1d0e4151dfddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 17/74] fix: do not panic on annotations with classes whose
 names cannot be expressed in Rust

---
 pyo3_bindgen_engine/src/syntax/module.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 31fc78e..a0db932 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -387,6 +387,8 @@ impl Module {
                         (imported_path, relative_path)
                     })
             }))
+            // Skip types with names that cannot be expressed in Rust
+            .filter(|(_, relative_path)| syn::Path::try_from(relative_path).is_ok())
             .collect();
 
         // Generate the module content
-- 
2.43.0


From 3590d79e3d611f591304e80c8adbd7b29fe878b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 18/74] fix: generate explicitly requested submodules also with
 disabled traversal of submodules

---
 pyo3_bindgen_engine/src/syntax/module.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index a0db932..54c49dd 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -467,15 +467,13 @@ impl Module {
                     .collect::<Result<proc_macro2::TokenStream>>()?,
             );
         }
-        // Submodules
-        if cfg.traverse_submodules {
-            module_content.extend(
-                self.submodules
-                    .iter()
-                    .map(|module| module.generate(cfg, top_level_modules, all_types))
-                    .collect::<Result<proc_macro2::TokenStream>>()?,
-            );
-        }
+        // Submodules (only explicitly requested submodules are present here if their traversal is disabled)
+        module_content.extend(
+            self.submodules
+                .iter()
+                .map(|module| module.generate(cfg, top_level_modules, all_types))
+                .collect::<Result<proc_macro2::TokenStream>>()?,
+        );
 
         // Embed the source code if the module was parsed directly from source code
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
-- 
2.43.0


From ba87a497e69e806d9c1cc6fea16951e970c8b6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 19/74] fix: do not refer to classes and type variables whose
 generation is disabled

---
 pyo3_bindgen_engine/src/codegen.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 32bf8e0..6304363 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -376,22 +376,26 @@ impl Codegen {
     }
 
     fn get_all_types(&self) -> Vec<Path> {
-        fn get_types_recursive(input: &[Module]) -> Vec<Path> {
+        fn get_types_recursive(cfg: &Config, input: &[Module]) -> Vec<Path> {
             let mut types = Vec::new();
             for module in input {
-                types.extend(module.classes.iter().map(|class| class.name.clone()));
-                types.extend(
-                    module
-                        .type_vars
-                        .iter()
-                        .map(|type_var| type_var.name.clone()),
-                );
-                types.extend(get_types_recursive(&module.submodules));
+                if cfg.generate_classes {
+                    types.extend(module.classes.iter().map(|class| class.name.clone()));
+                }
+                if cfg.generate_type_vars {
+                    types.extend(
+                        module
+                            .type_vars
+                            .iter()
+                            .map(|type_var| type_var.name.clone()),
+                    );
+                }
+                types.extend(get_types_recursive(cfg, &module.submodules));
             }
             types
         }
 
-        get_types_recursive(&self.modules)
+        get_types_recursive(&self.cfg, &self.modules)
             .into_iter()
             .unique()
             .collect()
-- 
2.43.0


From 31715656ec73bb6557fd05d35ae49cacbf669c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 20/74] fix: do not re-export items whose generation is
 disabled

---
 pyo3_bindgen_engine/src/syntax/module.rs | 76 ++++++++++++++----------
 1 file changed, 46 insertions(+), 30 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 54c49dd..34f1f12 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -399,9 +399,9 @@ impl Module {
                 self.imports
                     .iter()
                     .filter(|import| {
-                        top_level_modules
-                            .iter()
-                            .any(|module| module.check_path_exists_recursive(&import.origin, false))
+                        top_level_modules.iter().any(|module| {
+                            module.check_path_exists_recursive(cfg, &import.origin, false)
+                        })
                     })
                     .map(|import| import.generate(cfg))
                     .collect::<Result<proc_macro2::TokenStream>>()?,
@@ -409,7 +409,7 @@ impl Module {
         }
         // Prelude
         if cfg.generate_preludes {
-            module_content.extend(self.generate_prelude());
+            module_content.extend(self.generate_prelude(cfg));
         }
         // Type variables
         if cfg.generate_type_vars {
@@ -623,7 +623,7 @@ impl Module {
         index_attr_names
     }
 
-    fn generate_prelude(&self) -> Result<proc_macro2::TokenStream> {
+    fn generate_prelude(&self, cfg: &Config) -> Result<proc_macro2::TokenStream> {
         // Skip if the prelude is empty
         if self.prelude.is_empty() {
             return Ok(proc_macro2::TokenStream::new());
@@ -634,7 +634,7 @@ impl Module {
             .prelude
             .iter()
             // Retain only attributes that are within self.modules, self.classes, self.functions, self.type_vars, self.properties
-            .filter(|&ident| self.check_ident_exists_immediate(ident, false))
+            .filter(|&ident| self.check_ident_exists_immediate(cfg, ident, false))
             .map(|ident| {
                 let ident: syn::Ident = ident.try_into()?;
                 Ok(quote::quote! {
@@ -656,7 +656,7 @@ impl Module {
                     "call{}",
                     (i > 0).then(|| i.to_string()).unwrap_or_default()
                 ));
-                if !self.check_ident_exists_immediate(&ident, true) {
+                if !self.check_ident_exists_immediate(cfg, &ident, true) {
                     break ident;
                 }
                 i += 1;
@@ -670,23 +670,36 @@ impl Module {
         })
     }
 
-    fn check_path_exists_recursive(&self, path: &Path, consider_imports: bool) -> bool {
+    fn check_path_exists_recursive(
+        &self,
+        cfg: &Config,
+        path: &Path,
+        consider_imports: bool,
+    ) -> bool {
         (consider_imports && self.imports.iter().any(|import| import.target == *path))
             || self.submodules.iter().any(|module| module.name == *path)
-            || self.classes.iter().any(|class| class.name == *path)
-            || self.functions.iter().any(|function| function.name == *path)
-            || self.type_vars.iter().any(|type_var| type_var.name == *path)
-            || self
-                .properties
-                .iter()
-                .any(|property| property.name == *path)
+            || (cfg.generate_classes && self.classes.iter().any(|class| class.name == *path))
+            || (cfg.generate_functions
+                && self.functions.iter().any(|function| function.name == *path))
+            || (cfg.generate_type_vars
+                && self.type_vars.iter().any(|type_var| type_var.name == *path))
+            || (cfg.generate_properties
+                && self
+                    .properties
+                    .iter()
+                    .any(|property| property.name == *path))
             || self
                 .submodules
                 .iter()
-                .any(|module| module.check_path_exists_recursive(path, consider_imports))
+                .any(|module| module.check_path_exists_recursive(cfg, path, consider_imports))
     }
 
-    fn check_ident_exists_immediate(&self, ident: &Ident, consider_imports: bool) -> bool {
+    fn check_ident_exists_immediate(
+        &self,
+        cfg: &Config,
+        ident: &Ident,
+        consider_imports: bool,
+    ) -> bool {
         (consider_imports
             && self
                 .imports
@@ -696,18 +709,21 @@ impl Module {
                 .submodules
                 .iter()
                 .any(|module| module.name.name() == ident)
-            || self.classes.iter().any(|class| class.name.name() == ident)
-            || self
-                .functions
-                .iter()
-                .any(|function| function.name.name() == ident)
-            || self
-                .type_vars
-                .iter()
-                .any(|type_var| type_var.name.name() == ident)
-            || self
-                .properties
-                .iter()
-                .any(|property| property.name.name() == ident)
+            || (cfg.generate_classes && self.classes.iter().any(|class| class.name.name() == ident))
+            || (cfg.generate_functions
+                && self
+                    .functions
+                    .iter()
+                    .any(|function| function.name.name() == ident))
+            || (cfg.generate_type_vars
+                && self
+                    .type_vars
+                    .iter()
+                    .any(|type_var| type_var.name.name() == ident))
+            || (cfg.generate_properties
+                && self
+                    .properties
+                    .iter()
+                    .any(|property| property.name.name() == ident))
     }
 }
-- 
2.43.0


From 4af57d84f0d67237fb3334b4e1ed7723d56c5a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 21/74] fix: import the submodule that owns the called function
 or accessed property

---
 pyo3_bindgen_engine/src/syntax/common/path.rs | 13 ++++++++++++-
 pyo3_bindgen_engine/src/syntax/function.rs    |  2 +-
 pyo3_bindgen_engine/src/syntax/property.rs    |  4 ++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 789a005..2bc2eae 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -194,10 +194,21 @@ impl Path {
         }
     }
 
+    /// Generate the code that imports the object (e.g. class) at this path from the module that contains it.
     pub fn import_quote(&self, py: pyo3::Python) -> proc_macro2::TokenStream {
+        self.import_quote_impl(py, self.len() - 1)
+    }
+
+    /// Generate the code that imports the module at this path.
+    /// It must be imported explicitly because submodules are not necessarily attributes of their package.
+    pub fn import_module_quote(&self, py: pyo3::Python) -> proc_macro2::TokenStream {
+        self.import_quote_impl(py, self.len())
+    }
+
+    fn import_quote_impl(&self, py: pyo3::Python, max_len: usize) -> proc_macro2::TokenStream {
         // Find the last package and import it via py.import, then get the rest of the path via getattr()
         let mut package_path = self.root().unwrap_or_else(|| unreachable!());
-        for i in (1..self.len()).rev() {
+        for i in (1..=max_len).rev() {
             let module_name = Self::from(&self[..i]);
             if py.import_bound(module_name.to_py().as_str()).is_ok() {
                 package_path = module_name;
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 0bfaea7..e17d3b8 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -492,7 +492,7 @@ impl Function {
                 self.name
                     .parent()
                     .unwrap_or_else(|| unreachable!())
-                    .import_quote(py)
+                    .import_module_quote(py)
             }),
             FunctionType::Method {
                 class_path,
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index e28bc9e..12cae7c 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -254,7 +254,7 @@ impl Property {
                     self.name
                         .parent()
                         .unwrap_or_else(|| unreachable!())
-                        .import_quote(py)
+                        .import_module_quote(py)
                 });
                 impl_fn.extend(quote::quote! {
                     fn #function_ident<'py>(
@@ -331,7 +331,7 @@ impl Property {
                     self.name
                         .parent()
                         .unwrap_or_else(|| unreachable!())
-                        .import_quote(py)
+                        .import_module_quote(py)
                 });
                 impl_fn.extend(quote::quote! {
                     fn #function_ident<'py>(
-- 
2.43.0


From af6a509231f8cab96bf3dba3f3e990e471ba6764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 22/74] fix: skip items whose names cannot be expressed in Rust
 instead of failing the whole generation

---
 pyo3_bindgen_engine/src/syntax/import.rs   |  8 +++++++-
 pyo3_bindgen_engine/src/syntax/module.rs   | 10 ++++++++++
 pyo3_bindgen_engine/src/syntax/property.rs | 16 ++++++++++++++--
 pyo3_bindgen_engine/src/syntax/type_var.rs |  8 +++++++-
 4 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/import.rs b/pyo3_bindgen_engine/src/syntax/import.rs
index a3e3b5b..4155937 100644
--- a/pyo3_bindgen_engine/src/syntax/import.rs
+++ b/pyo3_bindgen_engine/src/syntax/import.rs
@@ -53,7 +53,13 @@ impl Import {
             let maybe_alias = if self.origin.name() == self.target.name() {
                 proc_macro2::TokenStream::new()
             } else {
-                let alias: syn::Ident = self.target.name().try_into()?;
+                let Ok(alias) = syn::Ident::try_from(self.target.name()) else {
+                    eprintln!(
+                        "WARN: Import '{}' is an invalid Rust ident. Bindings will not be generated.",
+                        self.target
+                    );
+                    return Ok(proc_macro2::TokenStream::new());
+                };
                 quote::quote! { as #alias }
             };
 
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 34f1f12..6d6d695 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -471,6 +471,16 @@ impl Module {
         module_content.extend(
             self.submodules
                 .iter()
+                .filter(|module| {
+                    let is_valid_ident = syn::Ident::try_from(module.name.name()).is_ok();
+                    if !is_valid_ident {
+                        eprintln!(
+                            "WARN: Submodule '{}' is an invalid Rust ident. Bindings will not be generated.",
+                            module.name
+                        );
+                    }
+                    is_valid_ident
+                })
                 .map(|module| module.generate(cfg, top_level_modules, all_types))
                 .collect::<Result<proc_macro2::TokenStream>>()?,
         );
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 12cae7c..680c861 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -241,8 +241,14 @@ impl Property {
                     || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&getter_name.as_py())
                 {
                     return Ok(TraitMethod::empty());
+                } else if let Ok(getter_ident) = getter_name.try_into() {
+                    getter_ident
                 } else {
-                    getter_name.try_into()?
+                    eprintln!(
+                        "WARN: Property '{}' is an invalid Rust ident. Bindings for its getter will not be generated.",
+                        self.name
+                    );
+                    return Ok(TraitMethod::empty());
                 }
             }
         };
@@ -315,8 +321,14 @@ impl Property {
                 || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&setter_name.as_py())
             {
                 return Ok(TraitMethod::empty());
+            } else if let Ok(setter_ident) = setter_name.try_into() {
+                setter_ident
             } else {
-                setter_name.try_into()?
+                eprintln!(
+                    "WARN: Property '{}' is an invalid Rust ident. Bindings for its setter will not be generated.",
+                    self.name
+                );
+                return Ok(TraitMethod::empty());
             }
         };
         let param_name = self.name.name().as_py();
diff --git a/pyo3_bindgen_engine/src/syntax/type_var.rs b/pyo3_bindgen_engine/src/syntax/type_var.rs
index 7813c58..e9a5b27 100644
--- a/pyo3_bindgen_engine/src/syntax/type_var.rs
+++ b/pyo3_bindgen_engine/src/syntax/type_var.rs
@@ -12,7 +12,13 @@ impl TypeVar {
     }
 
     pub fn generate(&self, _cfg: &Config) -> Result<proc_macro2::TokenStream> {
-        let typevar_ident: syn::Ident = self.name.name().try_into()?;
+        let Ok(typevar_ident) = syn::Ident::try_from(self.name.name()) else {
+            eprintln!(
+                "WARN: Type variable '{}' is an invalid Rust ident. Bindings will not be generated.",
+                self.name
+            );
+            return Ok(proc_macro2::TokenStream::new());
+        };
         Ok(quote::quote! {
             pub type #typevar_ident = ::pyo3::types::PyAny;
         })
-- 
2.43.0


From 65722f18d5688b87f2ccc6240f178841cbac2950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 23/74] fix: do not generate a dangling `pub` for module
 properties without a getter or setter

---
 pyo3_bindgen_engine/src/syntax/property.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 680c861..024a325 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -165,14 +165,18 @@ impl Property {
                 let impl_fn = self
                     .generate_getter(cfg, scoped_function_idents, local_types)?
                     .impl_fn;
-                functions.extend(quote::quote! { pub #impl_fn });
+                if !impl_fn.is_empty() {
+                    functions.extend(quote::quote! { pub #impl_fn });
+                }
 
                 // Setter (if mutable)
                 if self.is_mutable {
                     let impl_fn = self
                         .generate_setter(cfg, scoped_function_idents, local_types)?
                         .impl_fn;
-                    functions.extend(quote::quote! { pub #impl_fn });
+                    if !impl_fn.is_empty() {
+                        functions.extend(quote::quote! { pub #impl_fn });
+                    }
                 }
 
                 FunctionImplementation::Function(functions)
-- 
2.43.0


From 7355f9ea437c6f2994f0b878a783724c11250444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 24/74] fix: avoid clashes between generated setters and
 properties of the same name

---
 pyo3_bindgen_engine/src/syntax/class.rs    |  6 +++++-
 pyo3_bindgen_engine/src/syntax/module.rs   |  4 +++-
 pyo3_bindgen_engine/src/syntax/property.rs | 19 +++++++++++++++++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index e54f538..f958fdc 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -257,7 +257,11 @@ impl Class {
             scoped_function_idents.extend(scoped_function_idents_extra.iter());
             self.properties
                 .iter()
-                .map(|property| property.generate(cfg, &scoped_function_idents, local_types))
+                .map(|property| {
+                    let scoped_idents =
+                        property.scoped_idents(&scoped_function_idents, &self.properties);
+                    property.generate(cfg, &scoped_idents, local_types)
+                })
                 .try_for_each(|def| {
                     match def? {
                         FunctionImplementation::Function(impl_fn) => {
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 6d6d695..143495e 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -454,8 +454,10 @@ impl Module {
                 self.properties
                     .iter()
                     .map(|property| {
+                        let scoped_idents =
+                            property.scoped_idents(&scoped_function_idents, &self.properties);
                         property
-                            .generate(cfg, &scoped_function_idents, &local_types)
+                            .generate(cfg, &scoped_idents, &local_types)
                             .map(|def| {
                                 if let FunctionImplementation::Function(impl_fn) = def {
                                     impl_fn
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 024a325..5368e6a 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -151,6 +151,25 @@ impl Property {
         })
     }
 
+    /// Extend the names of all functions in the scope with the names of all other properties,
+    /// because the getters and setters must not clash with these either.
+    pub fn scoped_idents<'a>(
+        &self,
+        scoped_function_idents: &[&'a Ident],
+        properties: &'a [Self],
+    ) -> Vec<&'a Ident> {
+        scoped_function_idents
+            .iter()
+            .copied()
+            .chain(
+                properties
+                    .iter()
+                    .map(|property| property.name.name())
+                    .filter(|&name| name != self.name.name()),
+            )
+            .collect()
+    }
+
     pub fn generate(
         &self,
         cfg: &Config,
-- 
2.43.0


From e009582f3001f280f87c4e65b411c4bb87fc29f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 25/74] fix: do not panic on empty names of attributes and
 their types

---
 pyo3_bindgen_engine/src/syntax/class.rs             |  4 +++-
 .../src/syntax/common/attribute_variant.rs          |  9 +++------
 pyo3_bindgen_engine/src/syntax/module.rs            | 13 +++++++++----
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index f958fdc..72be341 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -34,7 +34,9 @@ impl Class {
             .dir()
             .iter()
             // Convert each attribute name to an identifier
-            .map(|attr_name| Ident::from_py(&attr_name.to_string()))
+            .map(|attr_name| attr_name.to_string())
+            .filter(|attr_name| !attr_name.is_empty())
+            .map(|attr_name| Ident::from_py(&attr_name))
             .unique()
             // TODO: Try to first access the attribute via __dict__ because Python's descriptor protocol might change the attributes obtained via getattr()
             //       - For example, classmethod and staticmethod are converted to method/function
diff --git a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
index 80317fb..b3841de 100644
--- a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
@@ -1,7 +1,4 @@
-use crate::{
-    syntax::{Ident, Path},
-    Result,
-};
+use crate::{syntax::Path, Result};
 use pyo3::prelude::*;
 
 pub enum AttributeVariant {
@@ -27,7 +24,7 @@ impl AttributeVariant {
         let inspect = py.import_bound("inspect")?;
 
         // Get the name and module of the attribute type
-        let attr_type_name = Ident::from_py(&attr_type.name().unwrap_or_default());
+        let attr_type_name = attr_type.name().unwrap_or_default();
         let attr_type_module = Path::from_py(
             &attr_type
                 .getattr(pyo3::intern!(py, "__module__"))
@@ -52,7 +49,7 @@ impl AttributeVariant {
             .call_method1(pyo3::intern!(py, "ismethod"), (attr,))?
             .is_truthy()?;
         let is_closure =
-            attr_type_module.to_py().as_str() == "functools" && attr_type_name.as_py() == "partial";
+            attr_type_module.to_py().as_str() == "functools" && attr_type_name == "partial";
         let is_type = ["typing", "types"].contains(&attr_type_module.to_py().as_str());
 
         // Some decorators might make a class look external, but they tend to include "<locals>" in their name
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 143495e..5228bc7 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -87,7 +87,9 @@ impl Module {
             .dir()
             .iter()
             // Convert each attribute name to an identifier
-            .map(|attr_name| Ident::from_py(&attr_name.to_string()))
+            .map(|attr_name| attr_name.to_string())
+            .filter(|attr_name| !attr_name.is_empty())
+            .map(|attr_name| Ident::from_py(&attr_name))
             // Remove duplicates
             .unique()
             // TODO: Try to first access the attribute via __dict__ because Python's descriptor protocol might change the attributes obtained via getattr()
@@ -579,7 +581,9 @@ impl Module {
         let mut index_attr_names = if let Ok(index) = module.index() {
             index
                 .iter()
-                .map(|x| Ident::from_py(&x.to_string()))
+                .map(|x| x.to_string())
+                .filter(|x| !x.is_empty())
+                .map(|x| Ident::from_py(&x))
                 .unique()
                 .collect()
         } else {
@@ -592,8 +596,9 @@ impl Module {
             let public_attr_names_set: HashSet<_> = module
                 .dir()
                 .iter()
-                .map(|attr_name| Ident::from_py(&attr_name.to_string()))
-                .filter(|attr_name| !attr_name.as_py().starts_with('_'))
+                .map(|attr_name| attr_name.to_string())
+                .filter(|attr_name| !attr_name.is_empty() && !attr_name.starts_with('_'))
+                .map(|attr_name| Ident::from_py(&attr_name))
                 .collect();
             let index_attr_names_set: HashSet<_> = index_attr_names.iter().cloned().collect();
 
-- 
2.43.0


From aad3dfd76678938739ecd569e1c0e9c84ebb7593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 26/74] fix: return an error instead of panicking on modules
 and annotations with unusual names

---
 pyo3_bindgen_engine/src/syntax/common/path.rs | 1 -
 pyo3_bindgen_engine/src/syntax/module.rs      | 4 ++--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 2bc2eae..ae7c80c 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -27,7 +27,6 @@ impl Path {
         if value.is_empty() {
             return Self::default();
         }
-        debug_assert!(!value.contains("::"), "Invalid Python path: {value}");
         Self {
             leading_colon: false,
             segments: std::iter::repeat(Ident::from_rs("super"))
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 5228bc7..c27746a 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -55,7 +55,7 @@ impl Module {
         let py = module.py();
 
         // Extract the name of the module
-        let name = Path::from_py(&module.name().unwrap().to_string());
+        let name = Path::from_py(&module.name()?.to_string());
 
         // Extract the index of the module as prelude (if enabled)
         let prelude = if cfg.generate_preludes {
@@ -550,7 +550,7 @@ impl Module {
             .collect::<Result<Vec<_>>>()?;
 
         // Extract the names of all submodules via `pkgutil.iter_modules`
-        let module_name = Path::from_py(&module.name().unwrap().to_string());
+        let module_name = Path::from_py(&module.name()?.to_string());
         pkgutil
             .call_method1(pyo3::intern!(py, "iter_modules"), (module_paths,))?
             .iter()?
-- 
2.43.0


From 96256d3714a4f18c108068294f2ced1b286d54fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 27/74] fix: return an error instead of panicking on modules
 with an empty name

---
 pyo3_bindgen_engine/src/syntax/module.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index c27746a..f773ab6 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -56,6 +56,11 @@ impl Module {
 
         // Extract the name of the module
         let name = Path::from_py(&module.name()?.to_string());
+        if name.is_empty() {
+            return Err(crate::PyBindgenError::ParseError(
+                "The name of the module is empty".to_string(),
+            ));
+        }
 
         // Extract the index of the module as prelude (if enabled)
         let prelude = if cfg.generate_preludes {
-- 
2.43.0


From 2e34b1e699a77e5c87f45eea69609328d68357ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 28/74] fix: skip dependencies that cannot be imported instead
 of panicking

---
 pyo3_bindgen_engine/src/codegen.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 6304363..85b07fc 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -197,16 +197,9 @@ impl Codegen {
             external_imports
                 .iter()
                 // Get the last valid module within the path of the import
-                .map(|import| {
-                    let mut last_module = py
-                        .import_bound(
-                            import
-                                .root()
-                                .unwrap_or_else(|| unreachable!())
-                                .to_py()
-                                .as_str(),
-                        )
-                        .unwrap();
+                .filter_map(|import| {
+                    // Skip imports with a root that is not importable (e.g. a custom `__module__` attribute)
+                    let mut last_module = py.import_bound(import.root()?.to_py().as_str()).ok()?;
                     for path in &import[1..] {
                         if let Ok(attr) = last_module.getattr(path.as_py()) {
                             if let Ok(module) = attr.downcast_into::<pyo3::types::PyModule>() {
@@ -218,8 +211,9 @@ impl Codegen {
                             break;
                         }
                     }
-                    last_module
+                    Some(last_module)
                 })
+                .filter(|module| module.name().is_ok())
                 // Parse the module and add it to the module tree
                 .unique_by(|module| module.name().unwrap().to_string())
                 // Filter attributes based on various configurable conditions
-- 
2.43.0


From dd7784c03bb01541ad733f53544e0829558b450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 29/74] fix: return an error instead of panicking if the parent
 of a module cannot be imported

---
 pyo3_bindgen_engine/src/codegen.rs | 31 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 85b07fc..5a63a14 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -146,7 +146,7 @@ impl Codegen {
         }
 
         // Canonicalize the module tree
-        self.canonicalize();
+        self.canonicalize()?;
 
         // Embed the source code of the modules
         self.modules.iter_mut().for_each(|module| {
@@ -244,29 +244,30 @@ impl Codegen {
         })
     }
 
-    fn canonicalize(&mut self) {
+    fn canonicalize(&mut self) -> Result<()> {
         // Canonicalize the module tree, such that no submodules remain at the top-level
         // Example: If `mod.submod.subsubmod` is currently top-level, it will be embedded as submodule into `mod.submod`
         //          and `mod.submod` will be embedded in top-level `mod`
         pyo3::Python::with_gil(|py| {
-            self.modules.iter_mut().for_each(|module| {
+            self.modules.iter_mut().try_for_each(|module| {
                 if module.name.len() > 1 {
-                    *module =
-                        (0..module.name.len() - 1)
-                            .rev()
-                            .fold(module.clone(), |package, i| {
-                                let name = Path::from(&module.name[0..=i]);
-                                let mut parent_package =
-                                    Module::empty(py, name).unwrap_or_else(|_| unreachable!());
-                                parent_package.submodules.push(package);
-                                parent_package
-                            });
+                    *module = (0..module.name.len() - 1).rev().try_fold(
+                        module.clone(),
+                        |package, i| {
+                            let name = Path::from(&module.name[0..=i]);
+                            let mut parent_package = Module::empty(py, name)?;
+                            parent_package.submodules.push(package);
+                            Result::Ok(parent_package)
+                        },
+                    )?;
                 }
-            });
-        });
+                Result::Ok(())
+            })
+        })?;
 
         // Merge duplicate modules in the tree
         self.merge_duplicate_modules();
+        Ok(())
     }
 
     fn merge_duplicate_modules(&mut self) {
-- 
2.43.0


From 03da3c7eed59c4bdde97cf7ee6c8c1c4d7889643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 30/74] fix: do not add an empty `__all__` attribute to the
 analyzed Python modules

---
 pyo3_bindgen_engine/src/syntax/module.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index f773ab6..0e1b0e7 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -583,7 +583,11 @@ impl Module {
         module_name: &Path,
     ) -> Vec<Ident> {
         // Extract the index (__all__) of the module if it exists
-        let mut index_attr_names = if let Ok(index) = module.index() {
+        // Note: `PyModuleMethods::index()` is not used because it would add the attribute to modules without it
+        let mut index_attr_names = if let Ok(index) = module
+            .getattr(pyo3::intern!(module.py(), "__all__"))
+            .and_then(|index| Ok(index.downcast_into::<pyo3::types::PyList>()?))
+        {
             index
                 .iter()
                 .map(|x| x.to_string())
-- 
2.43.0


From 5bb69ee9daf3bcf47d765882edde660c358afe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 31/74] fix: embed the source code under the Python name of the
 module

---
 pyo3_bindgen_engine/src/codegen.rs       | 2 +-
 pyo3_bindgen_engine/src/syntax/module.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 5a63a14..1bd6357 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -150,7 +150,7 @@ impl Codegen {
 
         // Embed the source code of the modules
         self.modules.iter_mut().for_each(|module| {
-            if let Some(source_code) = self.embedded_source_code.get(&module.name.to_rs()) {
+            if let Some(source_code) = self.embedded_source_code.get(&module.name.to_py()) {
                 module.source_code = Some(source_code.clone());
             }
         });
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 0e1b0e7..ee6ce43 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -496,7 +496,7 @@ impl Module {
 
         // Embed the source code if the module was parsed directly from source code
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
-            let module_name = self.name.to_rs();
+            let module_name = self.name.to_py();
             let file_name = format!("{module_name}/__init__.py");
             quote::quote! {
                 /// Embed the Python source code of the module into the Python interpreter
-- 
2.43.0


From 0c9cdc09d2654d3103ec291bdc4034e3fe43bbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 32/74] fix: embed the source code also for submodules that
 were parsed from source code

---
 pyo3_bindgen_engine/src/codegen.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 1bd6357..0b92497 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -149,11 +149,7 @@ impl Codegen {
         self.canonicalize()?;
 
         // Embed the source code of the modules
-        self.modules.iter_mut().for_each(|module| {
-            if let Some(source_code) = self.embedded_source_code.get(&module.name.to_py()) {
-                module.source_code = Some(source_code.clone());
-            }
-        });
+        self.embed_source_code();
 
         // Generate the bindings for all modules
         self.modules
@@ -270,6 +266,19 @@ impl Codegen {
         Ok(())
     }
 
+    fn embed_source_code(&mut self) {
+        fn embed_recursive(source_code: &HashMap<String, String>, input: &mut [Module]) {
+            for module in input {
+                if let Some(source_code) = source_code.get(&module.name.to_py()) {
+                    module.source_code = Some(source_code.clone());
+                }
+                embed_recursive(source_code, &mut module.submodules);
+            }
+        }
+
+        embed_recursive(&self.embedded_source_code, &mut self.modules);
+    }
+
     fn merge_duplicate_modules(&mut self) {
         fn get_duplicate_modules(modules: &mut [Module]) -> Vec<std::ops::Range<usize>> {
             modules.sort_by(|a, b| a.name.cmp(&b.name));
-- 
2.43.0


From 3f342b7190f11480361aef31a9234202a6861e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 33/74] fix: restore Python output streams after errors and
 concurrent use, and make their replacement writable

---
 pyo3_bindgen_engine/src/utils/io.rs | 113 ++++++++++++++++++++--------
 1 file changed, 82 insertions(+), 31 deletions(-)

diff --git a/pyo3_bindgen_engine/src/utils/io.rs b/pyo3_bindgen_engine/src/utils/io.rs
index a00b1b4..6244964 100644
--- a/pyo3_bindgen_engine/src/utils/io.rs
+++ b/pyo3_bindgen_engine/src/utils/io.rs
@@ -1,44 +1,95 @@
 use crate::Result;
 use pyo3::prelude::*;
 
-pub fn with_suppressed_python_output<T>(
-    py: pyo3::Python,
-    suppress_stdout: bool,
-    suppress_stderr: bool,
-    f: impl FnOnce() -> Result<T>,
-) -> Result<T> {
-    // If both stdout and stderr are suppressed, there's no need to do anything
-    if !suppress_stdout && !suppress_stderr {
-        return f();
+/// Suppression of a single Python output stream that is shared by all concurrently running scopes.
+struct SuppressedStream {
+    /// Number of scopes that currently suppress the stream.
+    depth: usize,
+    /// The original stream that is restored at the end of the last scope.
+    original: Option<PyObject>,
+}
+
+impl SuppressedStream {
+    const fn new() -> Self {
+        Self {
+            depth: 0,
+            original: None,
+        }
     }
+}
 
-    let sys = py.import_bound(pyo3::intern!(py, "sys"))?;
-    let stdout_ident = pyo3::intern!(py, "stdout");
-    let stderr_ident = pyo3::intern!(py, "stderr");
+static SUPPRESSED_STDOUT: std::sync::Mutex<SuppressedStream> =
+    std::sync::Mutex::new(SuppressedStream::new());
+static SUPPRESSED_STDERR: std::sync::Mutex<SuppressedStream> =
+    std::sync::Mutex::new(SuppressedStream::new());
 
-    // Record the original stdout and stderr
-    let original_stdout = sys.getattr(stdout_ident)?;
-    let original_stderr = sys.getattr(stderr_ident)?;
+/// Guard that suppresses a Python output stream until it is dropped.
+struct SuppressionGuard<'py> {
+    py: pyo3::Python<'py>,
+    stream_name: &'static str,
+    stream: &'static std::sync::Mutex<SuppressedStream>,
+}
 
-    // Suppress the output
-    let supressed_output = py.eval_bound(r"lambda: type('SupressedOutput', (), {'write': lambda self, x: None, 'flush': lambda self: None})", None, None)?;
-    if suppress_stdout {
-        sys.setattr(stdout_ident, &supressed_output)?;
-    }
-    if suppress_stderr {
-        sys.setattr(stderr_ident, &supressed_output)?;
-    }
+impl<'py> SuppressionGuard<'py> {
+    fn new(
+        py: pyo3::Python<'py>,
+        stream_name: &'static str,
+        stream: &'static std::sync::Mutex<SuppressedStream>,
+    ) -> Result<Self> {
+        let sys = py.import_bound(pyo3::intern!(py, "sys"))?;
+        let suppressed = py.eval_bound(r"type('SupressedOutput', (), {'write': lambda self, x: None, 'flush': lambda self: None})()", None, None)?;
 
-    // Run the function
-    let ret = f()?;
+        let mut state = stream
+            .lock()
+            .unwrap_or_else(std::sync::PoisonError::into_inner);
+        if state.depth == 0 {
+            let original = sys.getattr(stream_name)?;
+            sys.setattr(stream_name, suppressed)?;
+            state.original = Some(original.unbind());
+        }
+        state.depth += 1;
+        drop(state);
 
-    // Restore the original stdout and stderr
-    if suppress_stdout {
-        sys.setattr(stdout_ident, original_stdout)?;
+        Ok(Self {
+            py,
+            stream_name,
+            stream,
+        })
     }
-    if suppress_stderr {
-        sys.setattr(stderr_ident, original_stderr)?;
+}
+
+impl Drop for SuppressionGuard<'_> {
+    fn drop(&mut self) {
+        let sys = self.py.import_bound(pyo3::intern!(self.py, "sys"));
+        let mut state = self
+            .stream
+            .lock()
+            .unwrap_or_else(std::sync::PoisonError::into_inner);
+        state.depth -= 1;
+        if state.depth == 0 {
+            if let Some(original) = state.original.take() {
+                if let Err(err) = sys.and_then(|sys| sys.setattr(self.stream_name, original)) {
+                    eprintln!("WARN: Cannot restore Python '{}': {err}", self.stream_name);
+                }
+            }
+        }
     }
+}
+
+pub fn with_suppressed_python_output<T>(
+    py: pyo3::Python,
+    suppress_stdout: bool,
+    suppress_stderr: bool,
+    f: impl FnOnce() -> Result<T>,
+) -> Result<T> {
+    // Suppress the output until the end of this scope, also if the function fails or panics
+    let _stdout_guard = suppress_stdout
+        .then(|| SuppressionGuard::new(py, "stdout", &SUPPRESSED_STDOUT))
+        .transpose()?;
+    let _stderr_guard = suppress_stderr
+        .then(|| SuppressionGuard::new(py, "stderr", &SUPPRESSED_STDERR))
+        .transpose()?;
 
-    Ok(ret)
+    // Run the function
+    f()
 }
-- 
2.43.0


From c02882cc0cc8220ff30939406042957955120b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:27 +0000
Subject: [PATCH 34/74] fix: suppress the output of Python modules also while
 they are imported

---
 pyo3_bindgen_engine/src/codegen.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 0b92497..5e4a9b6 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -78,7 +78,12 @@ impl Codegen {
         #[cfg(not(PyPy))]
         pyo3::prepare_freethreaded_python();
         pyo3::Python::with_gil(|py| {
-            let module = py.import_bound(module_name)?;
+            let module = crate::io_utils::with_suppressed_python_output(
+                py,
+                self.cfg.suppress_python_stdout,
+                self.cfg.suppress_python_stderr,
+                || Ok(py.import_bound(module_name)?),
+            )?;
             self.module(&module)
         })
     }
@@ -99,11 +104,18 @@ impl Codegen {
         #[cfg(not(PyPy))]
         pyo3::prepare_freethreaded_python();
         pyo3::Python::with_gil(|py| {
-            let module = pyo3::types::PyModule::from_code_bound(
+            let module = crate::io_utils::with_suppressed_python_output(
                 py,
-                source_code,
-                &format!("{module_name}/__init__.py"),
-                module_name,
+                self.cfg.suppress_python_stdout,
+                self.cfg.suppress_python_stderr,
+                || {
+                    Ok(pyo3::types::PyModule::from_code_bound(
+                        py,
+                        source_code,
+                        &format!("{module_name}/__init__.py"),
+                        module_name,
+                    )?)
+                },
             )?;
             self.module(&module)
         })
-- 
2.43.0


From 266179d37341417cc20ca6e847703eb29e1f08e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 35/74] fix: map datetime to PyDateTime instead of its base
 class PyDate

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 6e3d6cb..31350cc 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -75,11 +75,12 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyType>> for Type {
             t if t.is_subclass_of::<pyo3::types::PyComplex>()? => Self::PyComplex,
 
             // Additional types - datetime
-            #[cfg(not(Py_LIMITED_API))]
-            t if t.is_subclass_of::<pyo3::types::PyDate>()? => Self::PyDate,
+            // Note: `datetime` is a subclass of `date`, so it must be checked first
             #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyDateTime>()? => Self::PyDateTime,
             #[cfg(not(Py_LIMITED_API))]
+            t if t.is_subclass_of::<pyo3::types::PyDate>()? => Self::PyDate,
+            #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyDelta>()? => Self::PyDelta,
             #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyTime>()? => Self::PyTime,
-- 
2.43.0


From 901c71d8f5a3414d2f58ebf6e7c656c2301453b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 36/74] fix: do not convert iterators (e.g. generators) to
 sequences

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 31350cc..125782d 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -307,7 +307,7 @@ impl std::str::FromStr for Type {
                 )?;
                 Self::PyList(Box::new(inner_type))
             }
-            "Sequence" | "Iterable" | "Iterator" => Self::PyList(Box::new(Self::Unknown)),
+            "Sequence" | "Iterable" => Self::PyList(Box::new(Self::Unknown)),
             iterable if iterable.starts_with("Iterable[") && iterable.ends_with(']') => {
                 let inner_type = Self::from_str(
                     iterable
@@ -318,15 +318,12 @@ impl std::str::FromStr for Type {
                 )?;
                 Self::PyList(Box::new(inner_type))
             }
-            iterator if iterator.starts_with("Iterator[") && iterator.ends_with(']') => {
-                let inner_type = Self::from_str(
-                    iterator
-                        .strip_prefix("Iterator[")
-                        .unwrap_or_else(|| unreachable!())
-                        .strip_suffix(']')
-                        .unwrap_or_else(|| unreachable!()),
-                )?;
-                Self::PyList(Box::new(inner_type))
+            // Iterators (e.g. generators) cannot be converted to or from a sequence
+            iterator
+                if iterator == "Iterator"
+                    || (iterator.starts_with("Iterator[") && iterator.ends_with(']')) =>
+            {
+                Self::PyAny
             }
             set if set.starts_with("set[") && set.ends_with(']') => {
                 let inner_type = Self::from_str(
-- 
2.43.0


From 3f920ce9e409a411bc83cfcd27f73ca28c152dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 37/74] fix: make preludes complete and independent of whether
 submodules are already imported

---
 pyo3_bindgen_engine/src/syntax/module.rs | 37 +++++++++++++++---------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index ee6ce43..52c51cc 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -62,13 +62,6 @@ impl Module {
             ));
         }
 
-        // Extract the index of the module as prelude (if enabled)
-        let prelude = if cfg.generate_preludes {
-            Self::extract_prelude(cfg, module, &name)
-        } else {
-            Vec::new()
-        };
-
         // Determine if the module is a package that contains submodules
         let is_package = module.hasattr(pyo3::intern!(py, "__path__"))?;
 
@@ -79,6 +72,13 @@ impl Module {
             HashSet::default()
         };
 
+        // Extract the index of the module as prelude (if enabled)
+        let prelude = if cfg.generate_preludes {
+            Self::extract_prelude(cfg, module, &name, &submodules_to_process)
+        } else {
+            Vec::new()
+        };
+
         // Initialize lists for all other members of the module
         let mut imports = Vec::new();
         let mut conflicting_imports = Vec::new();
@@ -581,6 +581,7 @@ impl Module {
         cfg: &Config,
         module: &pyo3::Bound<pyo3::types::PyModule>,
         module_name: &Path,
+        submodules: &HashSet<Ident>,
     ) -> Vec<Ident> {
         // Extract the index (__all__) of the module if it exists
         // Note: `PyModuleMethods::index()` is not used because it would add the attribute to modules without it
@@ -608,6 +609,8 @@ impl Module {
                 .map(|attr_name| attr_name.to_string())
                 .filter(|attr_name| !attr_name.is_empty() && !attr_name.starts_with('_'))
                 .map(|attr_name| Ident::from_py(&attr_name))
+                // Submodules become attributes of their package only once they are imported
+                .chain(submodules.iter().cloned())
                 .collect();
             let index_attr_names_set: HashSet<_> = index_attr_names.iter().cloned().collect();
 
@@ -619,7 +622,9 @@ impl Module {
         // If the generation of dependencies is disabled, retain only reexports
         if !cfg.generate_dependencies {
             index_attr_names.retain(|attr_name| {
-                if let Ok(attr) = module.getattr(attr_name.as_py()) {
+                if submodules.contains(attr_name) {
+                    true
+                } else if let Ok(attr) = module.getattr(attr_name.as_py()) {
                     let is_reexport = module_name.root().is_some_and(|root_module| {
                         let attr_module = Path::from_py(
                             &attr
@@ -627,7 +632,8 @@ impl Module {
                                 .map(|a| a.to_string())
                                 .unwrap_or_default(),
                         );
-                        attr_module.starts_with(&root_module)
+                        // Note: Values (e.g. constants) do not have to specify their module
+                        attr_module.is_empty() || attr_module.starts_with(&root_module)
                     });
                     is_reexport
                 } else {
@@ -638,7 +644,9 @@ impl Module {
 
         // Retain only allowed attributes
         index_attr_names.retain(|attr_name| {
-            if let Ok(attr) = module.getattr(attr_name.as_py()) {
+            if submodules.contains(attr_name) {
+                true
+            } else if let Ok(attr) = module.getattr(attr_name.as_py()) {
                 let attr_type = attr.get_type();
                 cfg.is_attr_allowed(attr_name, module_name, &attr_type)
             } else {
@@ -661,13 +669,14 @@ impl Module {
             .iter()
             // Retain only attributes that are within self.modules, self.classes, self.functions, self.type_vars, self.properties
             .filter(|&ident| self.check_ident_exists_immediate(cfg, ident, false))
+            // Skip names that cannot be expressed in Rust
+            .filter_map(|ident| syn::Ident::try_from(ident).ok())
             .map(|ident| {
-                let ident: syn::Ident = ident.try_into()?;
-                Ok(quote::quote! {
+                quote::quote! {
                     #ident,
-                })
+                }
             })
-            .collect::<Result<proc_macro2::TokenStream>>()?;
+            .collect::<proc_macro2::TokenStream>();
 
         // Return empty prelude if there are no exports
         if exports.is_empty() {
-- 
2.43.0


From 5a7f70a929c4f0ec68ec5f5ce674c382f04323b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 38/74] fix: do not drop constants and aliases from preludes
 because of the module of their type

---
 pyo3_bindgen_engine/src/syntax/module.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 52c51cc..7c95566 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -632,8 +632,16 @@ impl Module {
                                 .map(|a| a.to_string())
                                 .unwrap_or_default(),
                         );
-                        // Note: Values (e.g. constants) do not have to specify their module
-                        attr_module.is_empty() || attr_module.starts_with(&root_module)
+                        attr_module.starts_with(&root_module)
+                            // Note: Other values only refer to the module of their type (if any)
+                            || !["isclass", "isroutine", "ismodule"].iter().any(|kind| {
+                                module
+                                    .py()
+                                    .import_bound("inspect")
+                                    .and_then(|inspect| inspect.call_method1(*kind, (&attr,)))
+                                    .and_then(|is_kind| is_kind.is_truthy())
+                                    .unwrap_or(false)
+                            })
                     });
                     is_reexport
                 } else {
-- 
2.43.0


From 8a35575a136d6a920199a7ff8623e8ab59cf0c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:23 +0000
Subject: [PATCH 39/74] fix: do not emit lone carriage returns in doc comments

---
 pyo3_bindgen_engine/src/utils/text.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyo3_bindgen_engine/src/utils/text.rs b/pyo3_bindgen_engine/src/utils/text.rs
index e381431..a30b4b6 100644
--- a/pyo3_bindgen_engine/src/utils/text.rs
+++ b/pyo3_bindgen_engine/src/utils/text.rs
@@ -1,5 +1,10 @@
 /// Sanitize and format the given docstring.
 pub fn format_docstring(docstring: &mut String) {
+    // Treat lone carriage returns as line breaks, because they are not allowed in doc comments
+    if docstring.contains('\r') {
+        *docstring = docstring.replace("\r\n", "\n").replace('\r', "\n");
+    }
+
     // Remove leading and trailing whitespace for each line
     *docstring = docstring
         .lines()
-- 
2.43.0


From 2a333d9a669aae2e9ece6674db857cd935f05327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:52 +0000
Subject: [PATCH 40/74] fix: escape characters that change the direction of the
 text in doc comments

---
 pyo3_bindgen_engine/src/utils/text.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pyo3_bindgen_engine/src/utils/text.rs b/pyo3_bindgen_engine/src/utils/text.rs
index a30b4b6..bb4fcd3 100644
--- a/pyo3_bindgen_engine/src/utils/text.rs
+++ b/pyo3_bindgen_engine/src/utils/text.rs
@@ -39,10 +39,29 @@ pub fn format_docstring(docstring: &mut String) {
             docstring.push('\n');
         }
     }
+    // Escape characters that change the direction of the text, because rustc denies them in doc comments
+    if docstring.contains(changes_text_direction) {
+        *docstring = docstring
+            .chars()
+            .map(|c| {
+                if changes_text_direction(c) {
+                    c.escape_unicode().to_string()
+                } else {
+                    c.to_string()
+                }
+            })
+            .collect();
+    }
+
     // Pad the docstring with a leading whitespace (looks better in the generated code)
     docstring.insert(0, ' ');
 }
 
+/// Check if the character is a Unicode control character that changes the direction of the text.
+fn changes_text_direction(c: char) -> bool {
+    matches!(c, '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}')
+}
+
 /// Remove duplicate characters from the input string that satisfy the given predicate.
 fn conditioned_dedup(input: &mut String, mut predicate: impl FnMut(char) -> bool) {
     let mut previous = None;
-- 
2.43.0


From 5090ea2525bd386df00ca075735f9ad49b117a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:15 +0000
Subject: [PATCH 41/74] fix: escape embedded source code that contains
 characters changing the direction of the text

---
 pyo3_bindgen_engine/src/syntax/module.rs | 6 ++++++
 pyo3_bindgen_engine/src/utils/text.rs    | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 7c95566..22f734c 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -498,6 +498,12 @@ impl Module {
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
             let module_name = self.name.to_py();
             let file_name = format!("{module_name}/__init__.py");
+            let source_code = if source_code.contains(crate::utils::text::changes_text_direction) {
+                // Escape the literal because rustc denies the characters that change the direction of the text
+                syn::parse_str::<syn::LitStr>(&format!("\"{}\"", source_code.escape_default()))?
+            } else {
+                syn::LitStr::new(source_code, proc_macro2::Span::call_site())
+            };
             quote::quote! {
                 /// Embed the Python source code of the module into the Python interpreter
                 /// in order to enable the use of the generated Rust bindings.
diff --git a/pyo3_bindgen_engine/src/utils/text.rs b/pyo3_bindgen_engine/src/utils/text.rs
index bb4fcd3..10a874c 100644
--- a/pyo3_bindgen_engine/src/utils/text.rs
+++ b/pyo3_bindgen_engine/src/utils/text.rs
@@ -58,7 +58,7 @@ pub fn format_docstring(docstring: &mut String) {
 }
 
 /// Check if the character is a Unicode control character that changes the direction of the text.
-fn changes_text_direction(c: char) -> bool {
+pub fn changes_text_direction(c: char) -> bool {
     matches!(c, '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}')
 }
 
-- 
2.43.0


From 238c606c94ab4c67269a31d7a6f8daca44cd34f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 42/74] fix: do not let properties clash with the numbered
 names of callables

---
 pyo3_bindgen_engine/src/syntax/class.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index 72be341..48b58a4 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -234,6 +234,16 @@ impl Class {
         // Properties
         {
             let mut scoped_function_idents_extra = Vec::with_capacity(2);
+            // Constructors and callables use the first numbered name that no other method uses
+            let unused_ident = |base: &str| {
+                let mut ident = Ident::from_py(base);
+                let mut i = 0;
+                while scoped_function_idents.contains(&&ident) {
+                    i += 1;
+                    ident = Ident::from_py(&format!("{base}{i}"));
+                }
+                ident
+            };
             if self.methods.iter().any(|method| {
                 matches!(
                     method.typ,
@@ -243,7 +253,7 @@ impl Class {
                     }
                 )
             }) {
-                scoped_function_idents_extra.push(Ident::from_py("new"));
+                scoped_function_idents_extra.push(unused_ident("new"));
             }
             if self.methods.iter().any(|method| {
                 matches!(
@@ -254,7 +264,7 @@ impl Class {
                     }
                 )
             }) {
-                scoped_function_idents_extra.push(Ident::from_py("call"));
+                scoped_function_idents_extra.push(unused_ident("call"));
             }
             scoped_function_idents.extend(scoped_function_idents_extra.iter());
             self.properties
-- 
2.43.0


From f316e929f459680354da2316ed94c533cee700dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:49 +0000
Subject: [PATCH 43/74] fix: pass nested bytes, bytearray, frozenset and tuple
 arguments as the annotated Python type

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 124 +++++++++++++++++++---
 1 file changed, 108 insertions(+), 16 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index f663e79..ad371a3 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -43,22 +43,6 @@ impl Type {
                     let #ident = #ident.bind(py);
                 }
             }
-            Self::PyTuple(inner_types)
-                if inner_types.len() == 2 && inner_types[1] == Self::PyEllipsis =>
-            {
-                quote! {
-                    let #ident = ::pyo3::types::PyTuple::new_bound(py, #ident);
-                }
-            }
-            Self::PyBytes => quote! {
-                let #ident = ::pyo3::types::PyBytes::new_bound(py, #ident);
-            },
-            Self::PyByteArray => quote! {
-                let #ident = ::pyo3::types::PyByteArray::new_bound(py, #ident);
-            },
-            Self::PyFrozenSet(inner_type) if inner_type.is_hashable() => quote! {
-                let #ident = ::pyo3::types::PyFrozenSet::new_bound(py, #ident)?;
-            },
             Self::PyAny
             | Self::Unknown
             | Self::Union(..)
@@ -86,10 +70,118 @@ impl Type {
                     let #ident = #ident.bind(py);
                 }
             }
+            _ if self.is_lossy(local_types) => {
+                let converted = self.convert_lossy(&quote!(#ident), local_types);
+                quote! {
+                    let #ident = #converted;
+                }
+            }
             _ => proc_macro2::TokenStream::new(),
         }
     }
 
+    /// Determine if `pyo3` would convert the Rust type to a different Python type than the annotated one,
+    /// e.g. `bytes` that are represented by `Vec<u8>` would become a list of integers.
+    fn is_lossy(&self, local_types: &HashMap<Path, Path>) -> bool {
+        match self {
+            Self::PyBytes | Self::PyByteArray => true,
+            Self::PyFrozenSet(inner_type) => inner_type.is_hashable(),
+            Self::Optional(inner_type) | Self::PyList(inner_type) => {
+                inner_type.is_lossy(local_types)
+            }
+            Self::PyDict {
+                key_type,
+                value_type,
+            } => {
+                key_type.is_hashable()
+                    && value_type.is_lossy(local_types)
+                    && !(**value_type)
+                        .clone()
+                        .into_rs(local_types)
+                        .owned
+                        .to_string()
+                        .contains("PyAny")
+            }
+            Self::PyTuple(inner_types) if Self::is_fixed_size_tuple(inner_types) => {
+                inner_types[1] == Self::PyEllipsis && inner_types.len() == 2
+                    || inner_types.iter().any(|typ| typ.is_lossy(local_types))
+            }
+            _ => false,
+        }
+    }
+
+    /// Convert the Rust value to `Bound<'py, PyAny>` of the annotated Python type.
+    fn convert_lossy(
+        &self,
+        value: &proc_macro2::TokenStream,
+        local_types: &HashMap<Path, Path>,
+    ) -> proc_macro2::TokenStream {
+        if !self.is_lossy(local_types) {
+            return quote!(::pyo3::ToPyObject::to_object(&#value, py).into_bound(py));
+        }
+        let convert_inner = |inner_type: &Self| {
+            let inner = inner_type.convert_lossy(&quote!(__internal__inner), local_types);
+            quote! {
+                #value.iter().map(|__internal__inner| ::pyo3::PyResult::Ok(#inner)).collect::<::pyo3::PyResult<::std::vec::Vec<_>>>()?
+            }
+        };
+        match self {
+            Self::PyBytes => quote!(::pyo3::types::PyBytes::new_bound(py, &#value).into_any()),
+            Self::PyByteArray => {
+                quote!(::pyo3::types::PyByteArray::new_bound(py, &#value).into_any())
+            }
+            Self::PyFrozenSet(inner_type) => {
+                let inner = convert_inner(inner_type);
+                quote!(::pyo3::types::PyFrozenSet::new_bound(py, &#inner)?.into_any())
+            }
+            Self::PyList(inner_type) => {
+                let inner = convert_inner(inner_type);
+                quote!(::pyo3::types::PyList::new_bound(py, #inner).into_any())
+            }
+            Self::Optional(inner_type) => {
+                let inner = inner_type.convert_lossy(&quote!(__internal__inner), local_types);
+                quote! {
+                    match &#value {
+                        ::std::option::Option::Some(__internal__inner) => #inner,
+                        ::std::option::Option::None => py.None().into_bound(py),
+                    }
+                }
+            }
+            Self::PyDict { value_type, .. } => {
+                let inner = value_type.convert_lossy(&quote!(__internal__inner), local_types);
+                quote! {
+                    {
+                        let __internal__dict = ::pyo3::types::PyDict::new_bound(py);
+                        for (__internal__key, __internal__inner) in #value.iter() {
+                            ::pyo3::types::PyDictMethods::set_item(&__internal__dict, __internal__key, #inner)?;
+                        }
+                        __internal__dict.into_any()
+                    }
+                }
+            }
+            Self::PyTuple(inner_types) if inner_types[1] == Self::PyEllipsis => {
+                let inner = convert_inner(&inner_types[0]);
+                quote!(::pyo3::types::PyTuple::new_bound(py, #inner).into_any())
+            }
+            Self::PyTuple(inner_types) => {
+                let idents = (0..inner_types.len())
+                    .map(|i| quote::format_ident!("__internal__{i}"))
+                    .collect_vec();
+                let inner = inner_types
+                    .iter()
+                    .zip(&idents)
+                    .map(|(typ, ident)| typ.convert_lossy(&quote!(#ident), local_types));
+                quote! {
+                    {
+                        let (#(#idents),*) = &#value;
+                        ::pyo3::types::PyTuple::new_bound(py, [#(#inner),*]).into_any()
+                    }
+                }
+            }
+            _ => unreachable!(),
+        }
+    }
+
     fn into_rs(self, local_types: &HashMap<Path, Path>) -> OutputType {
         match self {
             Self::PyAny | Self::Unknown => OutputType::new(
-- 
2.43.0


From ab0bcf4dd1bcda5082ed492a844153f0750139fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:32 +0000
Subject: [PATCH 44/74] fix: pass path arguments as pathlib.Path instead of
 strings

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 24 +++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index ad371a3..8ff2c3c 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -84,17 +84,18 @@ impl Type {
     /// e.g. `bytes` that are represented by `Vec<u8>` would become a list of integers.
     fn is_lossy(&self, local_types: &HashMap<Path, Path>) -> bool {
         match self {
-            Self::PyBytes | Self::PyByteArray => true,
+            Self::PyBytes | Self::PyByteArray | Self::Path => true,
             Self::PyFrozenSet(inner_type) => inner_type.is_hashable(),
             Self::Optional(inner_type) | Self::PyList(inner_type) => {
                 inner_type.is_lossy(local_types)
             }
+            Self::PySet(inner_type) => inner_type.is_hashable() && inner_type.is_lossy(local_types),
             Self::PyDict {
                 key_type,
                 value_type,
             } => {
                 key_type.is_hashable()
-                    && value_type.is_lossy(local_types)
+                    && (key_type.is_lossy(local_types) || value_type.is_lossy(local_types))
                     && !(**value_type)
                         .clone()
                         .into_rs(local_types)
@@ -130,6 +131,17 @@ impl Type {
             Self::PyByteArray => {
                 quote!(::pyo3::types::PyByteArray::new_bound(py, &#value).into_any())
             }
+            Self::Path => quote! {
+                ::pyo3::types::PyAnyMethods::call_method1(
+                    py.import_bound(::pyo3::intern!(py, "pathlib"))?.as_any(),
+                    ::pyo3::intern!(py, "Path"),
+                    (::pyo3::ToPyObject::to_object(&#value, py),),
+                )?
+            },
+            Self::PySet(inner_type) => {
+                let inner = convert_inner(inner_type);
+                quote!(::pyo3::types::PySet::new_bound(py, &#inner)?.into_any())
+            }
             Self::PyFrozenSet(inner_type) => {
                 let inner = convert_inner(inner_type);
                 quote!(::pyo3::types::PyFrozenSet::new_bound(py, &#inner)?.into_any())
@@ -147,13 +159,17 @@ impl Type {
                     }
                 }
             }
-            Self::PyDict { value_type, .. } => {
+            Self::PyDict {
+                key_type,
+                value_type,
+            } => {
+                let key = key_type.convert_lossy(&quote!(__internal__key), local_types);
                 let inner = value_type.convert_lossy(&quote!(__internal__inner), local_types);
                 quote! {
                     {
                         let __internal__dict = ::pyo3::types::PyDict::new_bound(py);
                         for (__internal__key, __internal__inner) in #value.iter() {
-                            ::pyo3::types::PyDictMethods::set_item(&__internal__dict, __internal__key, #inner)?;
+                            ::pyo3::types::PyDictMethods::set_item(&__internal__dict, #key, #inner)?;
                         }
                         __internal__dict.into_any()
                     }
-- 
2.43.0


From bc4e46b21e90d71d5125b2cdaaac1fccf1bff7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:44 +0000
Subject: [PATCH 45/74] fix: skip attributes that cannot be parsed instead of
 aborting the generation

---
 pyo3_bindgen_engine/src/syntax/class.rs  | 11 +++++++++--
 pyo3_bindgen_engine/src/syntax/module.rs | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index 48b58a4..d068d28 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -67,7 +67,7 @@ impl Class {
                     || ["__init__", "__call__"].contains(&attr_name.as_py())
             })
             // Iterate over the remaining attributes and parse them
-            .try_for_each(|(attr, attr_name, attr_module, attr_type)| {
+            .map(|(attr, attr_name, attr_module, attr_type)| {
                 let attr_name_full = name.join(&attr_name.clone().into());
                 match AttributeVariant::determine(py, &attr, &attr_type, &attr_module, &name, false)
                     ?
@@ -123,7 +123,14 @@ impl Class {
                     }
                 }
                 Result::Ok(())
-            })?;
+            })
+            // Skip attributes that cannot be parsed
+            .filter_map(Result::err)
+            .for_each(|err| {
+                eprintln!(
+                    "WARN: Cannot parse an attribute of '{name}': {err}. Bindings will not be generated."
+                );
+            });
 
         // Extract the docstring of the class
         let docstring = {
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 22f734c..abc960f 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -125,7 +125,7 @@ impl Module {
                 cfg.is_attr_allowed(attr_name, attr_module, attr_type)
             })
             // Iterate over the remaining attributes and parse them
-            .try_for_each(|(attr, attr_name, attr_module, attr_type)| {
+            .map(|(attr, attr_name, attr_module, attr_type)| {
                 let attr_name_full = name.join(&attr_name.clone().into());
                 match AttributeVariant::determine(py, &attr, &attr_type, &attr_module, &name, true)
                     ?
@@ -213,7 +213,14 @@ impl Module {
                     }
                 }
                 Result::Ok(())
-            })?;
+            })
+            // Skip attributes that cannot be parsed
+            .filter_map(Result::err)
+            .for_each(|err| {
+                eprintln!(
+                    "WARN: Cannot parse an attribute of '{name}': {err}. Bindings will not be generated."
+                );
+            });
 
         // Process submodules
         let submodules = if cfg.traverse_submodules {
-- 
2.43.0


From bc3e40b476f976563e77bdcc79cd1c324a5f2753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:44 +0000
Subject: [PATCH 46/74] fix: skip submodules that cannot be parsed instead of
 aborting the generation

---
 pyo3_bindgen_engine/src/syntax/module.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index abc960f..f9aeaf6 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -237,11 +237,6 @@ impl Module {
                         if let Ok(submodule) = py
                             .import_bound(full_submodule_name.to_py().as_str())
                             .map_err(crate::PyBindgenError::from)
-                            .map(|attr| {
-                                <pyo3::Bound<'_, PyAny> as Clone>::clone(&attr)
-                                    .downcast_into::<pyo3::types::PyModule>()
-                                    .unwrap()
-                            })
                             .and_then(|module| Self::parse(cfg, &module))
                         {
                             // It could be any attribute, so all of them need to be checked
@@ -298,8 +293,16 @@ impl Module {
                         })
                         .ok()
                 })
-                .map(|submodule| Self::parse(cfg, &submodule))
-                .collect::<Result<_>>()?
+                .filter_map(|submodule| {
+                    Self::parse(cfg, &submodule)
+                        .map_err(|err| {
+                            eprintln!(
+                                "WARN: Cannot parse a submodule of '{name}': {err}. Bindings will not be generated."
+                            );
+                        })
+                        .ok()
+                })
+                .collect()
         } else {
             Vec::default()
         };
-- 
2.43.0


From e0da9a3547c4a711d5087682818459c1c27cfd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:18 +0000
Subject: [PATCH 47/74] fix: treat annotations that cannot be parsed as unknown
 types

---
 pyo3_bindgen_engine/src/syntax/function.rs |  4 ++--
 pyo3_bindgen_engine/src/syntax/property.rs | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index e17d3b8..0c211fb 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -79,7 +79,7 @@ impl Function {
                             if annotation.is(&param.getattr(pyo3::intern!(py, "empty"))?) {
                                 Type::Unknown
                             } else {
-                                annotation.try_into()?
+                                annotation.try_into().unwrap_or(Type::Unknown)
                             }
                         }
                     };
@@ -109,7 +109,7 @@ impl Function {
                 if return_annotation.is(&function_signature.getattr(pyo3::intern!(py, "empty"))?) {
                     Type::Unknown
                 } else {
-                    return_annotation.try_into()?
+                    return_annotation.try_into().unwrap_or(Type::Unknown)
                 }
             };
 
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 5368e6a..29233d1 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -41,7 +41,7 @@ impl Property {
         match owner {
             PropertyOwner::Module => {
                 is_mutable = true;
-                annotation = Type::try_from(typ)?;
+                annotation = Type::try_from(typ).unwrap_or(Type::Unknown);
                 setter_annotation = annotation.clone();
                 docstring.clone_from(&setter_docstring);
             }
@@ -61,11 +61,11 @@ impl Property {
                             {
                                 Type::Unknown
                             } else {
-                                return_annotation.try_into()?
+                                return_annotation.try_into().unwrap_or(Type::Unknown)
                             }
                         };
                     } else {
-                        annotation = Type::try_from(typ)?;
+                        annotation = Type::try_from(typ).unwrap_or(Type::Unknown);
                     }
 
                     // Update the docstring if it is empty
@@ -81,7 +81,7 @@ impl Property {
                         };
                     }
                 } else {
-                    annotation = Type::try_from(typ)?;
+                    annotation = Type::try_from(typ).unwrap_or(Type::Unknown);
                 }
 
                 match property.getattr(pyo3::intern!(py, "fset")) {
@@ -103,7 +103,7 @@ impl Property {
                                     if annotation.is(&param.getattr(pyo3::intern!(py, "empty"))?) {
                                         Type::Unknown
                                     } else {
-                                        annotation.try_into()?
+                                        annotation.try_into().unwrap_or(Type::Unknown)
                                     }
                                 } else {
                                     Type::Unknown
-- 
2.43.0


From f2a228d306586a1cc2066d0bcb533235a3d092b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:04 +0000
Subject: [PATCH 48/74] fix: do not panic if the attributes of an object cannot
 be listed

---
 pyo3_bindgen_engine/src/syntax/class.rs        |  3 +--
 pyo3_bindgen_engine/src/syntax/module.rs       |  7 +++----
 pyo3_bindgen_engine/src/utils/introspection.rs | 14 ++++++++++++++
 pyo3_bindgen_engine/src/utils/mod.rs           |  1 +
 4 files changed, 19 insertions(+), 6 deletions(-)
 create mode 100644 pyo3_bindgen_engine/src/utils/introspection.rs

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index d068d28..adcf99f 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -30,8 +30,7 @@ impl Class {
         let mut properties = Vec::new();
 
         // Extract the list of all attribute names in the module
-        class
-            .dir()
+        crate::utils::introspection::dir(class)?
             .iter()
             // Convert each attribute name to an identifier
             .map(|attr_name| attr_name.to_string())
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index f9aeaf6..2fe1710 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -88,8 +88,7 @@ impl Module {
         let mut properties = Vec::new();
 
         // Extract the list of all attribute names in the module
-        module
-            .dir()
+        crate::utils::introspection::dir(module)?
             .iter()
             // Convert each attribute name to an identifier
             .map(|attr_name| attr_name.to_string())
@@ -619,8 +618,8 @@ impl Module {
         // Compare the index with public attrs of the module
         // Return an empty vector if they are identical (no need to generate a prelude)
         {
-            let public_attr_names_set: HashSet<_> = module
-                .dir()
+            let public_attr_names_set: HashSet<_> = crate::utils::introspection::dir(module)
+                .unwrap_or_default()
                 .iter()
                 .map(|attr_name| attr_name.to_string())
                 .filter(|attr_name| !attr_name.is_empty() && !attr_name.starts_with('_'))
diff --git a/pyo3_bindgen_engine/src/utils/introspection.rs b/pyo3_bindgen_engine/src/utils/introspection.rs
new file mode 100644
index 0000000..de24fb0
--- /dev/null
+++ b/pyo3_bindgen_engine/src/utils/introspection.rs
@@ -0,0 +1,14 @@
+use crate::Result;
+use pyo3::prelude::*;
+
+/// Get the names of all attributes of an object.
+///
+/// Unlike `PyAnyMethods::dir()`, this does not panic if the attributes of the object cannot be listed.
+pub fn dir<'py>(object: &pyo3::Bound<'py, PyAny>) -> Result<Vec<pyo3::Bound<'py, PyAny>>> {
+    let py = object.py();
+    py.import_bound(pyo3::intern!(py, "builtins"))?
+        .call_method1(pyo3::intern!(py, "dir"), (object,))?
+        .iter()?
+        .map(|name| Ok(name?))
+        .collect()
+}
diff --git a/pyo3_bindgen_engine/src/utils/mod.rs b/pyo3_bindgen_engine/src/utils/mod.rs
index 2620963..425c697 100644
--- a/pyo3_bindgen_engine/src/utils/mod.rs
+++ b/pyo3_bindgen_engine/src/utils/mod.rs
@@ -1,6 +1,7 @@
 //! Various utilities.
 
 pub mod error;
+pub(crate) mod introspection;
 pub(crate) mod io;
 pub mod result;
 pub(crate) mod text;
-- 
2.43.0


From 01ec748921912f07cefb99e0c4cc05196237d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 49/74] fix: resolve types of imported modules by their own
 names

---
 pyo3_bindgen_engine/src/syntax/module.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 2fe1710..aee3b1d 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -386,19 +386,9 @@ impl Module {
                     .filter(|&path| path.starts_with(&import.origin))
                     .cloned()
                     .map(|path| {
-                        let imported_path = {
-                            if let Some(stripped_path) = path
-                                .to_py()
-                                .strip_prefix(&format!("{}.", import.origin.to_py()))
-                            {
-                                let mut path = Path::from_py(stripped_path);
-                                // Overwrite the first segment with the target name to support aliasing
-                                import.target.name().clone_into(&mut path[0]);
-                                path
-                            } else {
-                                import.target.name().to_owned().into()
-                            }
-                        };
+                        // Replace the origin with the target name to support aliasing
+                        let imported_path = Path::from(import.target.name().to_owned())
+                            .join(&path[import.origin.len()..].into());
                         let relative_path = self.name.relative_to(&path, false);
                         (imported_path, relative_path)
                     })
-- 
2.43.0


From 16f3953cb7f554244014b6c1860e82c083a75b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:33 +0000
Subject: [PATCH 50/74] fix: do not let preludes depend on whether blocklisted
 submodules are already imported

---
 pyo3_bindgen_engine/src/syntax/module.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index aee3b1d..ab44769 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -615,6 +615,16 @@ impl Module {
                 .filter(|attr_name| !attr_name.is_empty() && !attr_name.starts_with('_'))
                 .map(|attr_name| Ident::from_py(&attr_name))
                 // Submodules become attributes of their package only once they are imported
+                .filter(|attr_name| {
+                    let submodule_name = module_name.join(&attr_name.clone().into());
+                    !module.getattr(attr_name.as_py()).is_ok_and(|attr| {
+                        attr.downcast::<pyo3::types::PyModule>().is_ok_and(|attr| {
+                            attr.name().is_ok_and(|name| {
+                                Path::from_py(&name.to_string()) == submodule_name
+                            })
+                        })
+                    })
+                })
                 .chain(submodules.iter().cloned())
                 .collect();
             let index_attr_names_set: HashSet<_> = index_attr_names.iter().cloned().collect();
-- 
2.43.0


From 7fad432f2aed3e2c70e924504d8fdc75d1c6cb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 51/74] fix: replace suppressed Python streams with complete
 text streams

---
 pyo3_bindgen_engine/src/utils/io.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/utils/io.rs b/pyo3_bindgen_engine/src/utils/io.rs
index 6244964..e541396 100644
--- a/pyo3_bindgen_engine/src/utils/io.rs
+++ b/pyo3_bindgen_engine/src/utils/io.rs
@@ -7,6 +7,8 @@ struct SuppressedStream {
     depth: usize,
     /// The original stream that is restored at the end of the last scope.
     original: Option<PyObject>,
+    /// The stream that discards the output, which is kept alive in case Python code wraps its buffer.
+    replacement: Option<PyObject>,
 }
 
 impl SuppressedStream {
@@ -14,6 +16,7 @@ impl SuppressedStream {
         Self {
             depth: 0,
             original: None,
+            replacement: None,
         }
     }
 }
@@ -37,15 +40,16 @@ impl<'py> SuppressionGuard<'py> {
         stream: &'static std::sync::Mutex<SuppressedStream>,
     ) -> Result<Self> {
         let sys = py.import_bound(pyo3::intern!(py, "sys"))?;
-        let suppressed = py.eval_bound(r"type('SupressedOutput', (), {'write': lambda self, x: None, 'flush': lambda self: None})()", None, None)?;
+        let suppressed = Self::null_stream(py)?;
 
         let mut state = stream
             .lock()
             .unwrap_or_else(std::sync::PoisonError::into_inner);
         if state.depth == 0 {
             let original = sys.getattr(stream_name)?;
-            sys.setattr(stream_name, suppressed)?;
+            sys.setattr(stream_name, &suppressed)?;
             state.original = Some(original.unbind());
+            state.replacement = Some(suppressed.unbind());
         }
         state.depth += 1;
         drop(state);
@@ -56,17 +60,36 @@ impl<'py> SuppressionGuard<'py> {
             stream,
         })
     }
+
+    /// Create a text stream that discards everything written to it or to its underlying buffer.
+    fn null_stream(py: pyo3::Python<'py>) -> PyResult<pyo3::Bound<'py, PyAny>> {
+        let io = py.import_bound(pyo3::intern!(py, "io"))?;
+        let locals = pyo3::types::PyDict::new_bound(py);
+        locals.set_item("io", io)?;
+        py.eval_bound(
+            r"io.TextIOWrapper(type('SuppressedOutput', (io.RawIOBase,), {'writable': lambda self: True, 'write': lambda self, x: memoryview(x).nbytes})(), encoding='utf-8', errors='backslashreplace', write_through=True)",
+            None,
+            Some(&locals),
+        )
+    }
 }
 
 impl Drop for SuppressionGuard<'_> {
     fn drop(&mut self) {
         let sys = self.py.import_bound(pyo3::intern!(self.py, "sys"));
+        // Keep the replaced streams alive while the lock is held because their finalizers could run arbitrary code
+        let _replacement;
+        let _replaced = sys
+            .as_ref()
+            .ok()
+            .and_then(|sys| sys.getattr(self.stream_name).ok());
         let mut state = self
             .stream
             .lock()
             .unwrap_or_else(std::sync::PoisonError::into_inner);
         state.depth -= 1;
         if state.depth == 0 {
+            _replacement = state.replacement.take();
             if let Some(original) = state.original.take() {
                 if let Err(err) = sys.and_then(|sys| sys.setattr(self.stream_name, original)) {
                     eprintln!("WARN: Cannot restore Python '{}': {err}", self.stream_name);
-- 
2.43.0


From 3c053b41698776b3735717fcea0b4902c118d784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:09 +0000
Subject: [PATCH 52/74] fix: suppress the output of Python modules that are
 imported during the generation

---
 pyo3_bindgen_engine/src/codegen.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 5e4a9b6..8760af5 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -207,7 +207,14 @@ impl Codegen {
                 // Get the last valid module within the path of the import
                 .filter_map(|import| {
                     // Skip imports with a root that is not importable (e.g. a custom `__module__` attribute)
-                    let mut last_module = py.import_bound(import.root()?.to_py().as_str()).ok()?;
+                    let root = import.root()?.to_py();
+                    let mut last_module = crate::io_utils::with_suppressed_python_output(
+                        py,
+                        self.cfg.suppress_python_stdout,
+                        self.cfg.suppress_python_stderr,
+                        || Ok(py.import_bound(root.as_str())?),
+                    )
+                    .ok()?;
                     for path in &import[1..] {
                         if let Ok(attr) = last_module.getattr(path.as_py()) {
                             if let Ok(module) = attr.downcast_into::<pyo3::types::PyModule>() {
@@ -263,7 +270,13 @@ impl Codegen {
                         module.clone(),
                         |package, i| {
                             let name = Path::from(&module.name[0..=i]);
-                            let mut parent_package = Module::empty(py, name)?;
+                            let mut parent_package =
+                                crate::io_utils::with_suppressed_python_output(
+                                    py,
+                                    self.cfg.suppress_python_stdout,
+                                    self.cfg.suppress_python_stderr,
+                                    || Module::empty(py, name),
+                                )?;
                             parent_package.submodules.push(package);
                             Result::Ok(parent_package)
                         },
-- 
2.43.0


From fefff32c7edcd5ab9cd0ed106e2af7bcd5b4e3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:07 +0000
Subject: [PATCH 53/74] fix: do not pass invalid identifiers to the lexer of
 rustc in the procedural macro

---
 .../src/syntax/common/ident.rs                | 28 +++++++++++++++++--
 pyo3_bindgen_engine/src/syntax/common/path.rs | 11 ++++++--
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/ident.rs b/pyo3_bindgen_engine/src/syntax/common/ident.rs
index b6fda6a..6db93ba 100644
--- a/pyo3_bindgen_engine/src/syntax/common/ident.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/ident.rs
@@ -30,25 +30,47 @@ impl Ident {
     }
 
     fn py_to_rs(value: &str) -> String {
-        if syn::parse_str::<syn::Ident>(value).is_ok() {
+        if Self::parse(value).is_ok() {
             value.to_owned()
         } else {
             format!("r#{value}")
         }
     }
+
+    fn parse(value: &str) -> Result<syn::Ident, syn::Error> {
+        if Self::is_lexable(value) {
+            syn::parse_str::<syn::Ident>(value)
+        } else {
+            Err(syn::Error::new(
+                proc_macro2::Span::call_site(),
+                format!("'{value}' is not a valid identifier"),
+            ))
+        }
+    }
+
+    /// Determine if the value can be passed to the lexer. Inside of procedural macros, the lexer of `rustc`
+    /// reports everything that it does not accept as a compilation error even if the result is discarded.
+    pub(super) fn is_lexable(value: &str) -> bool {
+        let name = Self::rs_as_py(value);
+        let is_raw = name.len() != value.len();
+        !(name.is_empty()
+            || name.starts_with(|c: char| c.is_ascii_digit())
+            || name.contains(|c: char| c.is_ascii() && !c.is_ascii_alphanumeric() && c != '_')
+            || (is_raw && matches!(name, "_" | "crate" | "self" | "super" | "Self")))
+    }
 }
 
 impl TryFrom<Ident> for syn::Ident {
     type Error = syn::Error;
     fn try_from(value: Ident) -> Result<Self, Self::Error> {
-        syn::parse_str::<syn::Ident>(&value.into_rs())
+        Ident::parse(value.as_rs())
     }
 }
 
 impl TryFrom<&Ident> for syn::Ident {
     type Error = syn::Error;
     fn try_from(value: &Ident) -> Result<Self, Self::Error> {
-        syn::parse_str::<syn::Ident>(value.as_rs())
+        Ident::parse(value.as_rs())
     }
 }
 
diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index ae7c80c..eeda2f9 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -270,14 +270,21 @@ impl std::cmp::Ord for Path {
 impl TryFrom<Path> for syn::Path {
     type Error = syn::Error;
     fn try_from(value: Path) -> Result<Self, Self::Error> {
-        syn::parse_str::<syn::Path>(&value.into_rs())
+        Self::try_from(&value)
     }
 }
 
 impl TryFrom<&Path> for syn::Path {
     type Error = syn::Error;
     fn try_from(value: &Path) -> Result<Self, Self::Error> {
-        syn::parse_str::<syn::Path>(&value.to_rs())
+        if value.iter().all(|ident| Ident::is_lexable(ident.as_rs())) {
+            syn::parse_str::<syn::Path>(&value.to_rs())
+        } else {
+            Err(syn::Error::new(
+                proc_macro2::Span::call_site(),
+                format!("'{value}' is not a valid path"),
+            ))
+        }
     }
 }
 
-- 
2.43.0


From 79893c49262847fa337f08a3819faaf5aa9ec9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:36 +0000
Subject: [PATCH 54/74] fix: do not call the representation of the analysed
 attributes

---
 .../src/syntax/common/attribute_variant.rs            | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
index b3841de..3a5bd8f 100644
--- a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
@@ -53,11 +53,16 @@ impl AttributeVariant {
         let is_type = ["typing", "types"].contains(&attr_type_module.to_py().as_str());
 
         // Some decorators might make a class look external, but they tend to include "<locals>" in their name
-        let is_in_locals = attr.to_string().contains("<locals>");
+        // Note: The representation of the attribute is avoided here because it might call into the analysed code
+        let is_in_locals = || {
+            attr.getattr(pyo3::intern!(py, "__qualname__"))
+                .is_ok_and(|name| name.to_string().contains("<locals>"))
+        };
 
         // Determine if the attribute is imported
-        let is_external = !is_in_locals && (attr_module != owner_name);
-        let is_imported = is_external && (is_submodule || is_class || is_function || is_method);
+        let is_imported = (is_submodule || is_class || is_function || is_method)
+            && (attr_module != owner_name)
+            && !is_in_locals();
 
         Ok(if consider_import && is_imported {
             AttributeVariant::Import
-- 
2.43.0


From 13553e212e6dae3d6849703b23cb6bcffd04de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:50 +0000
Subject: [PATCH 55/74] fix: do not depend on the representation of classes
 defined by metaclasses

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 125782d..b003871 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -106,7 +106,13 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyType>> for Type {
             t if t.is_subclass_of::<pyo3::types::PyType>()? => Self::PyType,
 
             // Handle everything else as string
-            _ => Self::from_str(&value.to_string())?,
+            // Note: The representation that could be defined by a metaclass is avoided here (e.g. `<flag 'Name'>`)
+            t => Self::from_str(
+                &t.py()
+                    .get_type_bound::<pyo3::types::PyType>()
+                    .call_method1(pyo3::intern!(t.py(), "__repr__"), (&t,))?
+                    .to_string(),
+            )?,
         })
     }
 }
-- 
2.43.0


From 503e36d24b775856f8151c707b709c811abdb7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:06 +0000
Subject: [PATCH 56/74] fix: keep suppressed output streams alive for other
 threads that still use them

---
 pyo3_bindgen_engine/src/utils/io.rs | 44 +++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/pyo3_bindgen_engine/src/utils/io.rs b/pyo3_bindgen_engine/src/utils/io.rs
index e541396..5c48b4e 100644
--- a/pyo3_bindgen_engine/src/utils/io.rs
+++ b/pyo3_bindgen_engine/src/utils/io.rs
@@ -7,7 +7,10 @@ struct SuppressedStream {
     depth: usize,
     /// The original stream that is restored at the end of the last scope.
     original: Option<PyObject>,
-    /// The stream that discards the output, which is kept alive in case Python code wraps its buffer.
+    /// The stream that discards the output.
+    ///
+    /// It is kept alive and reused once created because other threads might still be using it after the
+    /// original stream is restored (e.g. `print()` holds only a borrowed reference to the stream).
     replacement: Option<PyObject>,
 }
 
@@ -40,7 +43,16 @@ impl<'py> SuppressionGuard<'py> {
         stream: &'static std::sync::Mutex<SuppressedStream>,
     ) -> Result<Self> {
         let sys = py.import_bound(pyo3::intern!(py, "sys"))?;
-        let suppressed = Self::null_stream(py)?;
+        let previous = stream
+            .lock()
+            .unwrap_or_else(std::sync::PoisonError::into_inner)
+            .replacement
+            .as_ref()
+            .map(|previous| previous.clone_ref(py).into_bound(py));
+        let suppressed = match previous {
+            Some(previous) if Self::is_usable(&previous) => previous,
+            _ => Self::null_stream(py)?,
+        };
 
         let mut state = stream
             .lock()
@@ -49,7 +61,14 @@ impl<'py> SuppressionGuard<'py> {
             let original = sys.getattr(stream_name)?;
             sys.setattr(stream_name, &suppressed)?;
             state.original = Some(original.unbind());
-            state.replacement = Some(suppressed.unbind());
+            if !state
+                .replacement
+                .as_ref()
+                .is_some_and(|x| x.is(&suppressed))
+            {
+                // Never release a stream that other threads might still be using
+                std::mem::forget(state.replacement.replace(suppressed.unbind()));
+            }
         }
         state.depth += 1;
         drop(state);
@@ -61,6 +80,21 @@ impl<'py> SuppressionGuard<'py> {
         })
     }
 
+    /// Check whether a stream that was used before can be used again (e.g. it was not closed or reconfigured).
+    fn is_usable(stream: &pyo3::Bound<'py, PyAny>) -> bool {
+        let check = || -> PyResult<bool> {
+            let py = stream.py();
+            let is = |attr: &str, value: &str| -> PyResult<bool> {
+                Ok(stream.getattr(attr)?.extract::<String>()? == value)
+            };
+            Ok(!stream.getattr(pyo3::intern!(py, "closed"))?.is_truthy()?
+                && is("encoding", "utf-8")?
+                && is("errors", "backslashreplace")?
+                && !stream.getattr(pyo3::intern!(py, "__dict__"))?.is_truthy()?)
+        };
+        check().unwrap_or(false)
+    }
+
     /// Create a text stream that discards everything written to it or to its underlying buffer.
     fn null_stream(py: pyo3::Python<'py>) -> PyResult<pyo3::Bound<'py, PyAny>> {
         let io = py.import_bound(pyo3::intern!(py, "io"))?;
@@ -77,8 +111,7 @@ impl<'py> SuppressionGuard<'py> {
 impl Drop for SuppressionGuard<'_> {
     fn drop(&mut self) {
         let sys = self.py.import_bound(pyo3::intern!(self.py, "sys"));
-        // Keep the replaced streams alive while the lock is held because their finalizers could run arbitrary code
-        let _replacement;
+        // Keep the replaced stream alive while the lock is held because its finalizer could run arbitrary code
         let _replaced = sys
             .as_ref()
             .ok()
@@ -89,7 +122,6 @@ impl Drop for SuppressionGuard<'_> {
             .unwrap_or_else(std::sync::PoisonError::into_inner);
         state.depth -= 1;
         if state.depth == 0 {
-            _replacement = state.replacement.take();
             if let Some(original) = state.original.take() {
                 if let Err(err) = sys.and_then(|sys| sys.setattr(self.stream_name, original)) {
                     eprintln!("WARN: Cannot restore Python '{}': {err}", self.stream_name);
-- 
2.43.0


From 8ad1e55921290b1e88a672149eb372432bab0851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 57/74] fix: treat unions written with | just like typing.Union

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 45 ++++++++++++++++-------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index b003871..43234f6 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -25,6 +25,23 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyAny>> for Type {
             {
                 Self::from_typing(typing)
             }
+            // Handle unions written with `|` just like `typing.Union` (Python considers them equal and might use either)
+            ref union
+                if union.get_type().qualname().is_ok_and(|x| x == "UnionType")
+                    && union
+                        .get_type()
+                        .getattr(pyo3::intern!(value.py(), "__module__"))?
+                        .to_string()
+                        == "types" =>
+            {
+                Ok(Self::from_union_args(
+                    union
+                        .getattr(pyo3::intern!(value.py(), "__args__"))?
+                        .iter()?
+                        .map(|x| Self::try_from(x?))
+                        .collect::<Result<_>>()?,
+                ))
+            }
             // Handle everything else as string
             _ => {
                 if value.is_instance_of::<pyo3::types::PyString>() {
@@ -118,6 +135,20 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyType>> for Type {
 }
 
 impl Type {
+    fn from_union_args(inner_types: Vec<Self>) -> Self {
+        if inner_types.len() == 2 && inner_types.contains(&Self::PyNone) {
+            Self::Optional(Box::new(
+                inner_types
+                    .iter()
+                    .find(|x| **x != Self::PyNone)
+                    .unwrap_or(&Self::PyNone)
+                    .to_owned(),
+            ))
+        } else {
+            Self::Union(inner_types)
+        }
+    }
+
     fn from_typing(value: pyo3::Bound<pyo3::types::PyAny>) -> Result<Self> {
         let py = value.py();
         debug_assert_eq!(
@@ -143,19 +174,7 @@ impl Type {
                         .map(Self::try_from)
                         .collect::<Result<Vec<_>>>()?;
                     match wrapping_type {
-                        Self::Union(..) => {
-                            if inner_types.len() == 2 && inner_types.contains(&Self::PyNone) {
-                                Self::Optional(Box::new(
-                                    inner_types
-                                        .iter()
-                                        .find(|x| **x != Self::PyNone)
-                                        .unwrap_or_else(|| unreachable!())
-                                        .to_owned(),
-                                ))
-                            } else {
-                                Self::Union(inner_types)
-                            }
-                        }
+                        Self::Union(..) => Self::from_union_args(inner_types),
                         Self::Optional(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
                             Self::Optional(Box::new(inner_types[0].clone()))
-- 
2.43.0


From f4f7e2f7414264ecc42f57c334a8cdb94e8482d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 58/74] fix: treat generic builtins just like their equivalents
 from typing

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 50 ++++++++++++-----------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 43234f6..4d170df 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -25,23 +25,18 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyAny>> for Type {
             {
                 Self::from_typing(typing)
             }
-            // Handle unions written with `|` just like `typing.Union` (Python considers them equal and might use either)
-            ref union
-                if union.get_type().qualname().is_ok_and(|x| x == "UnionType")
-                    && union
-                        .get_type()
-                        .getattr(pyo3::intern!(value.py(), "__module__"))?
-                        .to_string()
-                        == "types" =>
-            {
-                Ok(Self::from_union_args(
-                    union
-                        .getattr(pyo3::intern!(value.py(), "__args__"))?
-                        .iter()?
-                        .map(|x| Self::try_from(x?))
-                        .collect::<Result<_>>()?,
-                ))
+            // Handle generic builtins just like their equivalents from `typing`
+            generic if Self::is_instance_of_types(&generic, "GenericAlias") => {
+                Self::from_typing(generic)
             }
+            // Handle unions written with `|` just like `typing.Union` (Python considers them equal and might use either)
+            union if Self::is_instance_of_types(&union, "UnionType") => Ok(Self::from_union_args(
+                union
+                    .getattr(pyo3::intern!(union.py(), "__args__"))?
+                    .iter()?
+                    .map(|x| Self::try_from(x?))
+                    .collect::<Result<_>>()?,
+            )),
             // Handle everything else as string
             _ => {
                 if value.is_instance_of::<pyo3::types::PyString>() {
@@ -149,16 +144,17 @@ impl Type {
         }
     }
 
+    /// Check whether the value is an instance of a class defined in the `types` module
+    fn is_instance_of_types(value: &pyo3::Bound<pyo3::types::PyAny>, class_name: &str) -> bool {
+        value
+            .py()
+            .import_bound(pyo3::intern!(value.py(), "types"))
+            .and_then(|types| value.get_type().is_subclass(&types.getattr(class_name)?))
+            .unwrap_or(false)
+    }
+
     fn from_typing(value: pyo3::Bound<pyo3::types::PyAny>) -> Result<Self> {
         let py = value.py();
-        debug_assert_eq!(
-            value
-                .get_type()
-                .getattr(pyo3::intern!(py, "__module__"))?
-                .to_string(),
-            "typing"
-        );
-
         if let Ok(wrapping_type) = value.getattr(pyo3::intern!(py, "__origin__")) {
             let wrapping_type = Self::try_from(wrapping_type)?;
             Ok(
@@ -174,6 +170,12 @@ impl Type {
                         .map(Self::try_from)
                         .collect::<Result<Vec<_>>>()?;
                     match wrapping_type {
+                        // Only tuples can have an empty list of inner types
+                        _ if inner_types.is_empty()
+                            && !matches!(wrapping_type, Self::PyTuple(..)) =>
+                        {
+                            wrapping_type
+                        }
                         Self::Union(..) => Self::from_union_args(inner_types),
                         Self::Optional(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
-- 
2.43.0


From 6ad0d59e202b22e32a12fc72c144bee7290e7698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 59/74] fix: determine the kind of inherited methods and of
 static methods with a parameter named self

---
 pyo3_bindgen_engine/src/syntax/function.rs | 60 ++++++++++++----------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 0c211fb..e6cb5c3 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -135,57 +135,61 @@ impl Function {
                             )
                         });
 
-                    // Try to get the static object of the method (from __dict__), which still contains information about what kind of method it is
-                    if let Ok(static_fn_obj) = class.and_then(|class| {
-                        class
-                            .getattr(pyo3::intern!(py, "__dict__"))?
-                            .get_item(name.name().as_py())
-                    }) {
+                    // Try to get the static object of the method (also if it is inherited), which still contains information about what kind of method it is
+                    if let Some(static_fn_obj) = class
+                        .and_then(|class| class.getattr(pyo3::intern!(py, "__mro__"))?.iter())
+                        .ok()
+                        .and_then(|mut mro| {
+                            mro.find_map(|base| {
+                                base.ok()?
+                                    .getattr(pyo3::intern!(py, "__dict__"))
+                                    .ok()?
+                                    .get_item(name.name().as_py())
+                                    .ok()
+                            })
+                        })
+                    {
                         let locals = [("obj", static_fn_obj)].into_py_dict_bound(py);
                         let method_type = if py
-                            .eval_bound("isinstance(obj, classmethod)", None, Some(&locals))?
+                            .eval_bound("isinstance(obj, staticmethod)", None, Some(&locals))?
                             .is_truthy()?
                         {
-                            MethodType::ClassMethod
+                            MethodType::StaticMethod
                         } else if py
-                            .eval_bound("isinstance(obj, staticmethod)", None, Some(&locals))?
+                            .import_bound(pyo3::intern!(py, "inspect"))?
+                            .call_method1(pyo3::intern!(py, "isfunction"), (function,))?
                             .is_truthy()?
                         {
-                            MethodType::StaticMethod
-                        } else {
                             MethodType::InstanceMethod
+                        } else {
+                            // Anything else than a function is already bound (or never gets bound to an instance)
+                            MethodType::ClassMethod
                         };
                         typ = FunctionType::Method {
                             class_path: class_path.clone(),
                             typ: method_type,
                         };
                     } else {
-                        // Cannot determine the method type, default to static method (will be changed to instance method if the first parameter is named 'self')
+                        // Cannot determine the method type, default to static method unless the first parameter is named 'self'
+                        // Note: This is not 100% reliable, because Python does not enforce the first parameter to be named "self"
+                        // TODO: See if there is a better way to infer the method type from parameters alone
+                        let has_self = parameters.first().map(|p| p.name.as_rs()) == Some("r#self");
                         typ = FunctionType::Method {
                             class_path: class_path.clone(),
-                            typ: MethodType::StaticMethod,
+                            typ: if has_self {
+                                MethodType::InstanceMethod
+                            } else {
+                                MethodType::StaticMethod
+                            },
                         };
                     }
                 }
                 _ => {}
             };
 
-            // As a final step in determining the method type, check parameters for all non-instance/callable methods
-            // Note: This is not 100% reliable, because Python does not enforce the first parameter to be named "self"
-            // TODO: See if there is a better way to infer the method type from parameters alone
+            // As a final step, check the first parameter of all functions that are not methods
             match &typ {
-                FunctionType::Method {
-                    typ: MethodType::InstanceMethod | MethodType::Constructor | MethodType::Callable,
-                    ..
-                } => {}
-                FunctionType::Method { class_path, typ: _ } => {
-                    if parameters.first().map(|p| p.name.as_rs()) == Some("r#self") {
-                        typ = FunctionType::Method {
-                            class_path: class_path.clone(),
-                            typ: MethodType::InstanceMethod,
-                        };
-                    }
-                }
+                FunctionType::Method { .. } => {}
                 FunctionType::Function | FunctionType::Closure => {
                     if parameters.first().map(|p| p.name.as_rs()) == Some("r#self") {
                         if [
-- 
2.43.0


From 27c0f1a81245a47b300b3a8026cb875da8fc7a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:26 +0000
Subject: [PATCH 60/74] fix: suppress the Python output also while analysing
 dependencies

---
 pyo3_bindgen_engine/src/codegen.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 8760af5..a952184 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -154,7 +154,15 @@ impl Codegen {
 
         // Parse external modules (if enabled)
         if self.cfg.generate_dependencies {
-            self.parse_dependencies()?;
+            // Note: Analysing the imports could run Python code as well (e.g. `__getattr__` of modules)
+            pyo3::Python::with_gil(|py| {
+                crate::io_utils::with_suppressed_python_output(
+                    py,
+                    self.cfg.suppress_python_stdout,
+                    self.cfg.suppress_python_stderr,
+                    || self.parse_dependencies(),
+                )
+            })?;
         }
 
         // Canonicalize the module tree
-- 
2.43.0


From 0b6e5c5a9854d3bd4ee2c4bae4872b017cd76c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 61/74] fix: map annotations that name a class derived from a
 builtin type to its own bindings

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 189 ++++++++++++----------
 pyo3_bindgen_engine/src/typing/into_rs.rs |  48 +++++-
 pyo3_bindgen_engine/src/typing/mod.rs     |   6 +
 3 files changed, 157 insertions(+), 86 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 4d170df..dfc8b8e 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -57,7 +57,40 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyAny>> for Type {
 impl TryFrom<pyo3::Bound<'_, pyo3::types::PyType>> for Type {
     type Error = PyBindgenError;
     fn try_from(value: pyo3::Bound<pyo3::types::PyType>) -> Result<Self> {
-        Ok(match value {
+        // Note: The representation that could be defined by a metaclass is avoided here (e.g. `<flag 'Name'>`)
+        let typ = Self::from_str(
+            &value
+                .py()
+                .get_type_bound::<pyo3::types::PyType>()
+                .call_method1(pyo3::intern!(value.py(), "__repr__"), (&value,))?
+                .to_string(),
+        )?;
+        Ok(match (Self::from_builtin(&value)?, typ) {
+            // Classes derived from builtin types might have their own bindings
+            // Note: Typed dictionaries are just annotations, there are no instances of them
+            (Some(base), Self::Other(name))
+                if name.contains('.')
+                    && !value
+                        .get_type()
+                        .name()
+                        .is_ok_and(|metaclass| metaclass.ends_with("_TypedDictMeta")) =>
+            {
+                Self::Derived {
+                    name,
+                    base: Box::new(base),
+                }
+            }
+            (Some(base), _) => base,
+            // Handle everything else as string
+            (None, typ) => typ,
+        })
+    }
+}
+
+impl Type {
+    /// Map builtin types and all classes that are derived from them
+    fn from_builtin(value: &pyo3::Bound<pyo3::types::PyType>) -> Result<Option<Self>> {
+        Ok(Some(match value {
             // Primitives
             t if t.is_subclass_of::<pyo3::types::PyBool>()? => Self::PyBool,
             t if t.is_subclass_of::<pyo3::types::PyByteArray>()? => Self::PyByteArray,
@@ -117,19 +150,10 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyType>> for Type {
             t if t.is_subclass_of::<pyo3::types::PyTraceback>()? => Self::PyTraceback,
             t if t.is_subclass_of::<pyo3::types::PyType>()? => Self::PyType,
 
-            // Handle everything else as string
-            // Note: The representation that could be defined by a metaclass is avoided here (e.g. `<flag 'Name'>`)
-            t => Self::from_str(
-                &t.py()
-                    .get_type_bound::<pyo3::types::PyType>()
-                    .call_method1(pyo3::intern!(t.py(), "__repr__"), (&t,))?
-                    .to_string(),
-            )?,
-        })
+            _ => return Ok(None),
+        }))
     }
-}
 
-impl Type {
     fn from_union_args(inner_types: Vec<Self>) -> Self {
         if inner_types.len() == 2 && inner_types.contains(&Self::PyNone) {
             Self::Optional(Box::new(
@@ -156,79 +180,82 @@ impl Type {
     fn from_typing(value: pyo3::Bound<pyo3::types::PyAny>) -> Result<Self> {
         let py = value.py();
         if let Ok(wrapping_type) = value.getattr(pyo3::intern!(py, "__origin__")) {
-            let wrapping_type = Self::try_from(wrapping_type)?;
-            Ok(
-                if let Ok(inner_types) =
-                    value
-                        .getattr(pyo3::intern!(py, "__args__"))
-                        .and_then(|inner_types| {
-                            Ok(inner_types.downcast_into::<pyo3::types::PyTuple>()?)
-                        })
-                {
-                    let inner_types = inner_types
-                        .iter()
-                        .map(Self::try_from)
-                        .collect::<Result<Vec<_>>>()?;
-                    match wrapping_type {
-                        // Only tuples can have an empty list of inner types
-                        _ if inner_types.is_empty()
-                            && !matches!(wrapping_type, Self::PyTuple(..)) =>
-                        {
-                            wrapping_type
-                        }
-                        Self::Union(..) => Self::from_union_args(inner_types),
-                        Self::Optional(..) => {
-                            // debug_assert_eq!(inner_types.len(), 1);
-                            Self::Optional(Box::new(inner_types[0].clone()))
-                        }
-                        Self::PyDict { .. } => {
-                            // debug_assert_eq!(inner_types.len(), 2);
-                            Self::PyDict {
-                                key_type: Box::new(inner_types[0].clone()),
-                                // Some mappings have only one type parameter (e.g. `typing.Counter`)
-                                value_type: Box::new(
-                                    inner_types.get(1).cloned().unwrap_or(Self::Unknown),
-                                ),
-                            }
-                        }
-                        Self::PyFrozenSet(..) => {
-                            // debug_assert_eq!(inner_types.len(), 1);
-                            Self::PyFrozenSet(Box::new(inner_types[0].clone()))
-                        }
-                        Self::PyList(..) => {
-                            // debug_assert_eq!(inner_types.len(), 1);
-                            Self::PyList(Box::new(inner_types[0].clone()))
-                        }
-                        Self::PySet(..) => {
-                            // debug_assert_eq!(inner_types.len(), 1);
-                            Self::PySet(Box::new(inner_types[0].clone()))
-                        }
-                        Self::PyTuple(..) => Self::PyTuple(inner_types),
-                        Self::PyFunction { .. } => {
-                            // debug_assert!(!inner_types.is_empty());
-                            Self::PyFunction {
-                                param_types: match inner_types.len() {
-                                    1 => Vec::default(),
-                                    _ => inner_types[..inner_types.len() - 1].to_owned(),
-                                },
-                                return_annotation: Box::new(
-                                    inner_types
-                                        .last()
-                                        .unwrap_or_else(|| unreachable!())
-                                        .to_owned(),
-                                ),
-                            }
+            let (wrapping_type, derived_name) = match Self::try_from(wrapping_type)? {
+                Self::Derived { name, base } => (*base, Some(name)),
+                wrapping_type => (wrapping_type, None),
+            };
+            let typ = if let Ok(inner_types) = value
+                .getattr(pyo3::intern!(py, "__args__"))
+                .and_then(|inner_types| Ok(inner_types.downcast_into::<pyo3::types::PyTuple>()?))
+            {
+                let inner_types = inner_types
+                    .iter()
+                    .map(Self::try_from)
+                    .collect::<Result<Vec<_>>>()?;
+                match wrapping_type {
+                    // Only tuples can have an empty list of inner types
+                    _ if inner_types.is_empty() && !matches!(wrapping_type, Self::PyTuple(..)) => {
+                        wrapping_type
+                    }
+                    Self::Union(..) => Self::from_union_args(inner_types),
+                    Self::Optional(..) => {
+                        // debug_assert_eq!(inner_types.len(), 1);
+                        Self::Optional(Box::new(inner_types[0].clone()))
+                    }
+                    Self::PyDict { .. } => {
+                        // debug_assert_eq!(inner_types.len(), 2);
+                        Self::PyDict {
+                            key_type: Box::new(inner_types[0].clone()),
+                            // Some mappings have only one type parameter (e.g. `typing.Counter`)
+                            value_type: Box::new(
+                                inner_types.get(1).cloned().unwrap_or(Self::Unknown),
+                            ),
                         }
-                        _ => {
-                            // TODO: Handle other types with inner types if useful (e.g. Generator)
-                            wrapping_type
+                    }
+                    Self::PyFrozenSet(..) => {
+                        // debug_assert_eq!(inner_types.len(), 1);
+                        Self::PyFrozenSet(Box::new(inner_types[0].clone()))
+                    }
+                    Self::PyList(..) => {
+                        // debug_assert_eq!(inner_types.len(), 1);
+                        Self::PyList(Box::new(inner_types[0].clone()))
+                    }
+                    Self::PySet(..) => {
+                        // debug_assert_eq!(inner_types.len(), 1);
+                        Self::PySet(Box::new(inner_types[0].clone()))
+                    }
+                    Self::PyTuple(..) => Self::PyTuple(inner_types),
+                    Self::PyFunction { .. } => {
+                        // debug_assert!(!inner_types.is_empty());
+                        Self::PyFunction {
+                            param_types: match inner_types.len() {
+                                1 => Vec::default(),
+                                _ => inner_types[..inner_types.len() - 1].to_owned(),
+                            },
+                            return_annotation: Box::new(
+                                inner_types
+                                    .last()
+                                    .unwrap_or_else(|| unreachable!())
+                                    .to_owned(),
+                            ),
                         }
                     }
-                } else {
-                    // If there are no inner types, return just the wrapping type
-                    wrapping_type
+                    _ => {
+                        // TODO: Handle other types with inner types if useful (e.g. Generator)
+                        wrapping_type
+                    }
+                }
+            } else {
+                // If there are no inner types, return just the wrapping type
+                wrapping_type
+            };
+            Ok(match derived_name {
+                Some(name) => Self::Derived {
+                    name,
+                    base: Box::new(typ),
                 },
-            )
+                None => typ,
+            })
         } else {
             // Handle everything else as string
             Type::from_str(&value.to_string())
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 8ff2c3c..b661b89 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -7,12 +7,15 @@ use std::rc::Rc;
 
 impl Type {
     pub fn into_rs_owned(self, local_types: &HashMap<Path, Path>) -> proc_macro2::TokenStream {
-        let owned = self.into_rs(local_types).owned;
+        let owned = self.resolve_derived(local_types).into_rs(local_types).owned;
         Rc::into_inner(owned).unwrap_or_else(|| unreachable!())
     }
 
     pub fn into_rs_borrowed(self, local_types: &HashMap<Path, Path>) -> proc_macro2::TokenStream {
-        let borrowed = self.into_rs(local_types).borrowed;
+        let borrowed = self
+            .resolve_derived(local_types)
+            .into_rs(local_types)
+            .borrowed;
         Rc::into_inner(borrowed).unwrap_or_else(|| unreachable!())
     }
 
@@ -21,7 +24,7 @@ impl Type {
         ident: &syn::Ident,
         local_types: &HashMap<Path, Path>,
     ) -> proc_macro2::TokenStream {
-        match self {
+        match &self.clone().resolve_derived(local_types) {
             Self::PyDict {
                 key_type,
                 value_type,
@@ -70,8 +73,8 @@ impl Type {
                     let #ident = #ident.bind(py);
                 }
             }
-            _ if self.is_lossy(local_types) => {
-                let converted = self.convert_lossy(&quote!(#ident), local_types);
+            typ if typ.is_lossy(local_types) => {
+                let converted = typ.convert_lossy(&quote!(#ident), local_types);
                 quote! {
                     let #ident = #converted;
                 }
@@ -80,6 +83,40 @@ impl Type {
         }
     }
 
+    /// Replace classes derived from builtin types by themselves if they have bindings, or by their builtin type otherwise.
+    fn resolve_derived(self, local_types: &HashMap<Path, Path>) -> Self {
+        let resolve = |typ: Box<Self>| Box::new(typ.resolve_derived(local_types));
+        let resolve_all = |types: Vec<Self>| {
+            types
+                .into_iter()
+                .map(|typ| typ.resolve_derived(local_types))
+                .collect_vec()
+        };
+        match self {
+            Self::Derived { name, base } => {
+                if local_types.contains_key(&Path::from_py(&name)) {
+                    Self::Other(name)
+                } else {
+                    base.resolve_derived(local_types)
+                }
+            }
+            Self::Optional(inner_type) => Self::Optional(resolve(inner_type)),
+            Self::Union(inner_types) => Self::Union(resolve_all(inner_types)),
+            Self::PyDict {
+                key_type,
+                value_type,
+            } => Self::PyDict {
+                key_type: resolve(key_type),
+                value_type: resolve(value_type),
+            },
+            Self::PyFrozenSet(inner_type) => Self::PyFrozenSet(resolve(inner_type)),
+            Self::PyList(inner_type) => Self::PyList(resolve(inner_type)),
+            Self::PySet(inner_type) => Self::PySet(resolve(inner_type)),
+            Self::PyTuple(inner_types) => Self::PyTuple(resolve_all(inner_types)),
+            typ => typ,
+        }
+    }
+
     /// Determine if `pyo3` would convert the Rust type to a different Python type than the annotated one,
     /// e.g. `bytes` that are represented by `Vec<u8>` would become a list of integers.
     fn is_lossy(&self, local_types: &HashMap<Path, Path>) -> bool {
@@ -205,6 +242,7 @@ impl Type {
                 quote!(impl ::pyo3::IntoPy<::pyo3::Py<::pyo3::types::PyAny>>),
             ),
             Self::Other(..) => self.map_type(local_types),
+            Self::Derived { .. } => self.resolve_derived(local_types).into_rs(local_types),
 
             // Primitives
             Self::PyBool => OutputType::new_identical(quote!(bool)),
diff --git a/pyo3_bindgen_engine/src/typing/mod.rs b/pyo3_bindgen_engine/src/typing/mod.rs
index 192b765..8e01828 100644
--- a/pyo3_bindgen_engine/src/typing/mod.rs
+++ b/pyo3_bindgen_engine/src/typing/mod.rs
@@ -8,6 +8,12 @@ pub enum Type {
     Other(String),
     Unknown,
 
+    /// Class derived from a builtin type, which stands in for the class if there are no bindings for it
+    Derived {
+        name: String,
+        base: Box<Type>,
+    },
+
     // Primitives
     PyBool,
     PyByteArray,
-- 
2.43.0


From ccd466cfd14d7b4145d8badca0fbc0361868c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 62/74] fix: only treat strings as docstrings, also if they
 read None

---
 pyo3_bindgen_engine/src/syntax/class.rs       |  9 +--------
 pyo3_bindgen_engine/src/syntax/function.rs    |  9 +--------
 pyo3_bindgen_engine/src/syntax/module.rs      | 18 ++---------------
 pyo3_bindgen_engine/src/syntax/property.rs    | 20 ++-----------------
 .../src/utils/introspection.rs                | 12 +++++++++++
 5 files changed, 18 insertions(+), 50 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index adcf99f..e69a82e 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -132,14 +132,7 @@ impl Class {
             });
 
         // Extract the docstring of the class
-        let docstring = {
-            let docstring = class.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::introspection::docstring(class)?;
 
         Ok(Self {
             name,
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index e6cb5c3..76c72b8 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -41,14 +41,7 @@ impl Function {
         let py = function.py();
 
         // Extract the docstring of the function
-        let docstring = {
-            let docstring = function.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::introspection::docstring(function)?;
 
         // Extract the signature of the function
         if let Ok(function_signature) = py
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index ab44769..4e44928 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -27,14 +27,7 @@ impl Module {
         let module = py.import_bound(name.to_py().as_str())?;
 
         // Extract the docstring of the module
-        let docstring = {
-            let docstring = module.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::introspection::docstring(module.as_any())?;
 
         Ok(Self {
             name,
@@ -307,14 +300,7 @@ impl Module {
         };
 
         // Extract the docstring of the module
-        let docstring = {
-            let docstring = module.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::introspection::docstring(module.as_any())?;
 
         Ok(Self {
             name,
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 29233d1..3e056b2 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -70,15 +70,7 @@ impl Property {
 
                     // Update the docstring if it is empty
                     if docstring.is_none() {
-                        docstring = {
-                            let docstring =
-                                getter.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-                            if docstring.is_empty() || docstring == "None" {
-                                None
-                            } else {
-                                Some(docstring)
-                            }
-                        };
+                        docstring = crate::utils::introspection::docstring(&getter)?;
                     }
                 } else {
                     annotation = Type::try_from(typ).unwrap_or(Type::Unknown);
@@ -113,15 +105,7 @@ impl Property {
                             setter_annotation = Type::Unknown;
                         }
 
-                        setter_docstring = {
-                            let docstring =
-                                setter.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-                            if docstring.is_empty() || docstring == "None" {
-                                None
-                            } else {
-                                Some(docstring)
-                            }
-                        };
+                        setter_docstring = crate::utils::introspection::docstring(&setter)?;
 
                         if docstring.is_none() {
                             // Update the getter docstring to match setter docstring if it is still empty
diff --git a/pyo3_bindgen_engine/src/utils/introspection.rs b/pyo3_bindgen_engine/src/utils/introspection.rs
index de24fb0..920b3aa 100644
--- a/pyo3_bindgen_engine/src/utils/introspection.rs
+++ b/pyo3_bindgen_engine/src/utils/introspection.rs
@@ -12,3 +12,15 @@ pub fn dir<'py>(object: &pyo3::Bound<'py, PyAny>) -> Result<Vec<pyo3::Bound<'py,
         .map(|name| Ok(name?))
         .collect()
 }
+
+/// Get the documentation of an object.
+///
+/// Just like for Python, objects of other types than strings are no documentation.
+pub fn docstring(object: &pyo3::Bound<PyAny>) -> Result<Option<String>> {
+    Ok(object
+        .getattr(pyo3::intern!(object.py(), "__doc__"))?
+        .downcast::<pyo3::types::PyString>()
+        .ok()
+        .map(|docstring| docstring.to_string_lossy().into_owned())
+        .filter(|docstring| !docstring.is_empty()))
+}
-- 
2.43.0


From 621baec553064f738dcb6754d553b929723e8ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 63/74] fix: prefer the docstring of a property over the one of
 its getter

---
 pyo3_bindgen_engine/src/syntax/property.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 3e056b2..24ced5e 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -51,6 +51,17 @@ impl Property {
                     .getattr(pyo3::intern!(py, "signature"))?;
 
                 if let Ok(getter) = property.getattr(pyo3::intern!(py, "fget")) {
+                    // Use the docstring of the property itself unless it is the one of its type
+                    let property_type = py
+                        .import_bound(pyo3::intern!(py, "builtins"))?
+                        .getattr(pyo3::intern!(py, "property"))?;
+                    if typ.is_subclass(&property_type)? {
+                        docstring = crate::utils::introspection::docstring(property)?;
+                        if docstring == crate::utils::introspection::docstring(&typ)? {
+                            docstring = None;
+                        }
+                    }
+
                     // Extract the annotation from the return of the function (if available)
                     if let Ok(function_signature) = signature.call1((&getter,)) {
                         annotation = {
-- 
2.43.0


From 98fe7817e5ebb3406570e51ea9f697681ccedf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 64/74] fix: generate bindings for modules named typing that
 belong to other packages

---
 pyo3_bindgen_engine/src/config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/config.rs b/pyo3_bindgen_engine/src/config.rs
index 6d53be8..3605d56 100644
--- a/pyo3_bindgen_engine/src/config.rs
+++ b/pyo3_bindgen_engine/src/config.rs
@@ -93,9 +93,9 @@ impl Config {
             attr_name.as_py() == blocklist_match
         }) ||
         // Skip `__future__` attributes
-        attr_module.iter().any(|segment| segment.as_py() == "__future__") ||
-        // Skip `typing` attributes
-        attr_module.iter().any(|segment| segment.as_py() == "typing")
+        attr_module.first().is_some_and(|segment| segment.as_py() == "__future__") ||
+        // Skip `typing` attributes (submodules of other packages might have the same name)
+        attr_module.first().is_some_and(|segment| segment.as_py() == "typing")
         {
             false
         } else {
-- 
2.43.0


From 9ee9efa14213893450db630c5e625b5601ffa1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 65/74] fix: do not panic on annotations that are as short as
 the delimiters of a class

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 36 +++++++++++++++--------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index dfc8b8e..a6e715a 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -477,22 +477,34 @@ impl std::str::FromStr for Type {
             typ if typ.starts_with("type[") && typ.ends_with(']') => Self::PyType,
 
             // classes
-            class if class.starts_with("<class '") && class.ends_with("'>") => Self::from_str(
-                class
+            class
+                if class
                     .strip_prefix("<class '")
-                    .unwrap_or_else(|| unreachable!())
-                    .strip_suffix("'>")
-                    .unwrap_or_else(|| unreachable!()),
-            )?,
+                    .is_some_and(|x| x.ends_with("'>")) =>
+            {
+                Self::from_str(
+                    class
+                        .strip_prefix("<class '")
+                        .unwrap_or_else(|| unreachable!())
+                        .strip_suffix("'>")
+                        .unwrap_or_else(|| unreachable!()),
+                )?
+            }
 
             // enums
-            enume if enume.starts_with("<enum '") && enume.ends_with("'>") => Self::from_str(
-                enume
+            enume
+                if enume
                     .strip_prefix("<enum '")
-                    .unwrap_or_else(|| unreachable!())
-                    .strip_suffix("'>")
-                    .unwrap_or_else(|| unreachable!()),
-            )?,
+                    .is_some_and(|x| x.ends_with("'>")) =>
+            {
+                Self::from_str(
+                    enume
+                        .strip_prefix("<enum '")
+                        .unwrap_or_else(|| unreachable!())
+                        .strip_suffix("'>")
+                        .unwrap_or_else(|| unreachable!()),
+                )?
+            }
 
             // typing
             typing if typing.starts_with("typing.") => Self::from_str(
-- 
2.43.0


From 251c5d04be9c2cfdd0e470d5b3c0c8defe8bd088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 66/74] fix: do not confuse the names of type aliases with
 other types

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index a6e715a..5248a5e 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -15,6 +15,15 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyAny>> for Type {
                 let x = t.downcast_into::<pyo3::types::PyType>().unwrap();
                 Self::try_from(x)
             }
+            // Type aliases consist only of their own name, which could coincide with the name of any other type
+            alias
+                if alias
+                    .get_type()
+                    .name()
+                    .is_ok_and(|name| name.ends_with("TypeAliasType")) =>
+            {
+                Ok(Self::Unknown)
+            }
             // Handle typing
             typing
                 if typing
-- 
2.43.0


From 617e7205f152286152dfafcd5e7e01f5a54709ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 67/74] fix: keep all parameters of static and class methods
 that make instances callable

---
 pyo3_bindgen_engine/src/syntax/function.rs | 99 ++++++++++++++--------
 1 file changed, 66 insertions(+), 33 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 76c72b8..2649f4f 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -112,35 +112,9 @@ impl Function {
                     class_path,
                     typ: method_typ,
                 } if *method_typ == MethodType::Unknown => {
-                    // Get the class object from its class path
-                    let class = py
-                        .import_bound(
-                            class_path
-                                .root()
-                                .unwrap_or_else(|| unreachable!())
-                                .to_py()
-                                .as_str(),
-                        )
-                        .and_then(|root_module| {
-                            class_path.iter().skip(1).try_fold(
-                                root_module.extract::<&pyo3::types::PyAny>()?,
-                                |module, name| module.getattr(name.as_py()),
-                            )
-                        });
-
-                    // Try to get the static object of the method (also if it is inherited), which still contains information about what kind of method it is
-                    if let Some(static_fn_obj) = class
-                        .and_then(|class| class.getattr(pyo3::intern!(py, "__mro__"))?.iter())
-                        .ok()
-                        .and_then(|mut mro| {
-                            mro.find_map(|base| {
-                                base.ok()?
-                                    .getattr(pyo3::intern!(py, "__dict__"))
-                                    .ok()?
-                                    .get_item(name.name().as_py())
-                                    .ok()
-                            })
-                        })
+                    // Try to get the static object of the method, which still contains information about what kind of method it is
+                    if let Some(static_fn_obj) =
+                        Self::get_static_method(py, class_path, name.name())
                     {
                         let locals = [("obj", static_fn_obj)].into_py_dict_bound(py);
                         let method_type = if py
@@ -239,11 +213,34 @@ impl Function {
                 }
             };
 
+            // Static and class methods do not get the instance, also if they make it callable
+            let is_bound_callable = match &typ {
+                FunctionType::Method {
+                    class_path,
+                    typ: MethodType::Callable,
+                } => match Self::get_static_method(py, class_path, name.name()) {
+                    Some(static_fn_obj) => {
+                        let locals = [("obj", static_fn_obj)].into_py_dict_bound(py);
+                        py.eval_bound(
+                            "isinstance(obj, (staticmethod, classmethod))",
+                            None,
+                            Some(&locals),
+                        )?
+                        .is_truthy()?
+                    }
+                    None => false,
+                },
+                _ => false,
+            };
+
             // Skip the first parameter if it's an instance method (or `__init__`/`__call__`)
-            if let FunctionType::Method {
-                typ: MethodType::InstanceMethod | MethodType::Constructor | MethodType::Callable,
-                ..
-            } = typ
+            if let (
+                FunctionType::Method {
+                    typ: MethodType::InstanceMethod | MethodType::Constructor | MethodType::Callable,
+                    ..
+                },
+                false,
+            ) = (&typ, is_bound_callable)
             {
                 // Note: The instance might also be consumed by variadic arguments, in which case these must be preserved
                 if parameters.first().is_some_and(|param| {
@@ -319,6 +316,42 @@ impl Function {
         }
     }
 
+    /// Get the static object of a method (also if it is inherited) without binding it to the class.
+    fn get_static_method<'py>(
+        py: pyo3::Python<'py>,
+        class_path: &Path,
+        name: &Ident,
+    ) -> Option<&'py pyo3::types::PyAny> {
+        // Get the class object from its class path
+        let class = py
+            .import_bound(
+                class_path
+                    .root()
+                    .unwrap_or_else(|| unreachable!())
+                    .to_py()
+                    .as_str(),
+            )
+            .and_then(|root_module| {
+                class_path.iter().skip(1).try_fold(
+                    root_module.extract::<&pyo3::types::PyAny>()?,
+                    |module, name| module.getattr(name.as_py()),
+                )
+            });
+
+        class
+            .and_then(|class| class.getattr(pyo3::intern!(py, "__mro__"))?.iter())
+            .ok()
+            .and_then(|mut mro| {
+                mro.find_map(|base| {
+                    base.ok()?
+                        .getattr(pyo3::intern!(py, "__dict__"))
+                        .ok()?
+                        .get_item(name.as_py())
+                        .ok()
+                })
+            })
+    }
+
     pub fn generate(
         &self,
         cfg: &Config,
-- 
2.43.0


From ae4b1102f695fbffc4f826a298700d3902847c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:07 +0000
Subject: [PATCH 68/74] fix: do not import another attribute in place of a
 function that carries its name

Functions that are wrapped via functools.wraps() and methods that are bound to an instance
keep the module and name of something else. They were reexported as that other attribute.
---
 .../src/syntax/common/attribute_variant.rs    | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
index 3a5bd8f..a383e29 100644
--- a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
@@ -62,7 +62,8 @@ impl AttributeVariant {
         // Determine if the attribute is imported
         let is_imported = (is_submodule || is_class || is_function || is_method)
             && (attr_module != owner_name)
-            && !is_in_locals();
+            && !is_in_locals()
+            && !Self::is_named_after_another(py, attr, attr_module, is_method);
 
         Ok(if consider_import && is_imported {
             AttributeVariant::Import
@@ -82,4 +83,26 @@ impl AttributeVariant {
             AttributeVariant::Property
         })
     }
+
+    /// Determine if an attribute only carries the name of another attribute of its (alleged) module,
+    /// e.g. functions that are wrapped via `functools.wraps()` and methods that are bound to an instance.
+    fn is_named_after_another(
+        py: pyo3::prelude::Python,
+        attr: &pyo3::Bound<pyo3::prelude::PyAny>,
+        attr_module: &Path,
+        is_method: bool,
+    ) -> bool {
+        let get_origin = || {
+            py.import_bound("sys")?
+                .getattr(pyo3::intern!(py, "modules"))?
+                .get_item(attr_module.to_py())?
+                .downcast_into::<pyo3::types::PyModule>()?
+                .dict()
+                .get_item(attr.getattr(pyo3::intern!(py, "__name__"))?)
+        };
+        get_origin().is_ok_and(|origin: Option<pyo3::Bound<pyo3::PyAny>>| {
+            // Note: Methods might not be exposed under their own name
+            origin.map_or(is_method, |origin| !origin.is(attr))
+        })
+    }
 }
-- 
2.43.0


From 77e8a4a97ed5614077d5e5489c4f2751cc1548e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 69/74] fix: generate bindings for bound methods that modules
 expose as functions

For example, this includes almost all functions of the random module.
---
 pyo3_bindgen_engine/src/syntax/module.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 4e44928..d66ec87 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -178,15 +178,13 @@ impl Module {
                         let type_var = TypeVar::new(attr_name_full);
                         type_vars.push(type_var);
                     }
-                    AttributeVariant::Function => {
+                    // Note: Methods are already bound to their instances here
+                    AttributeVariant::Function | AttributeVariant::Method => {
                         let function =
                             Function::parse(cfg, &attr, attr_name_full, FunctionType::Function)
                                 ?;
                         functions.push(function);
                     }
-                    AttributeVariant::Method => {
-                        eprintln!("WARN: Methods in modules are not supported: '{name}.{attr_name}'. Bindings will not be generated.");
-                    }
                     AttributeVariant::Closure => {
                         let function =
                             Function::parse(cfg, &attr, attr_name_full, FunctionType::Closure)
-- 
2.43.0


From 286f88684f6715d8a0c76725ca3d67d13b2cb8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 70/74] fix: do not drop methods without a signature from the
 bindings of classes

Class methods of builtin types often have none, e.g. datetime.date.today().
---
 pyo3_bindgen_engine/src/syntax/function.rs | 88 ++++++++++++++--------
 1 file changed, 56 insertions(+), 32 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 2649f4f..9c5423a 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -112,44 +112,25 @@ impl Function {
                     class_path,
                     typ: method_typ,
                 } if *method_typ == MethodType::Unknown => {
-                    // Try to get the static object of the method, which still contains information about what kind of method it is
-                    if let Some(static_fn_obj) =
-                        Self::get_static_method(py, class_path, name.name())
+                    let method_type = if let Some(method_type) =
+                        Self::infer_method_type(py, function, class_path, name.name())?
                     {
-                        let locals = [("obj", static_fn_obj)].into_py_dict_bound(py);
-                        let method_type = if py
-                            .eval_bound("isinstance(obj, staticmethod)", None, Some(&locals))?
-                            .is_truthy()?
-                        {
-                            MethodType::StaticMethod
-                        } else if py
-                            .import_bound(pyo3::intern!(py, "inspect"))?
-                            .call_method1(pyo3::intern!(py, "isfunction"), (function,))?
-                            .is_truthy()?
-                        {
-                            MethodType::InstanceMethod
-                        } else {
-                            // Anything else than a function is already bound (or never gets bound to an instance)
-                            MethodType::ClassMethod
-                        };
-                        typ = FunctionType::Method {
-                            class_path: class_path.clone(),
-                            typ: method_type,
-                        };
+                        method_type
                     } else {
                         // Cannot determine the method type, default to static method unless the first parameter is named 'self'
                         // Note: This is not 100% reliable, because Python does not enforce the first parameter to be named "self"
                         // TODO: See if there is a better way to infer the method type from parameters alone
                         let has_self = parameters.first().map(|p| p.name.as_rs()) == Some("r#self");
-                        typ = FunctionType::Method {
-                            class_path: class_path.clone(),
-                            typ: if has_self {
-                                MethodType::InstanceMethod
-                            } else {
-                                MethodType::StaticMethod
-                            },
-                        };
-                    }
+                        if has_self {
+                            MethodType::InstanceMethod
+                        } else {
+                            MethodType::StaticMethod
+                        }
+                    };
+                    typ = FunctionType::Method {
+                        class_path: class_path.clone(),
+                        typ: method_type,
+                    };
                 }
                 _ => {}
             };
@@ -290,6 +271,18 @@ impl Function {
                 docstring,
             })
         } else {
+            // The type of methods does not depend on their signature (e.g. class methods of builtin types might not have any)
+            if let FunctionType::Method {
+                class_path,
+                typ: method_typ,
+            } = &mut typ
+            {
+                if *method_typ == MethodType::Unknown {
+                    *method_typ = Self::infer_method_type(py, function, class_path, name.name())?
+                        .unwrap_or(MethodType::StaticMethod);
+                }
+            }
+
             Ok(Self {
                 name,
                 typ,
@@ -316,6 +309,37 @@ impl Function {
         }
     }
 
+    /// Infer the type of a method (if possible).
+    fn infer_method_type(
+        py: pyo3::Python,
+        function: &pyo3::Bound<pyo3::types::PyAny>,
+        class_path: &Path,
+        name: &Ident,
+    ) -> Result<Option<MethodType>> {
+        // Try to get the static object of the method, which still contains information about what kind of method it is
+        let Some(static_fn_obj) = Self::get_static_method(py, class_path, name) else {
+            return Ok(None);
+        };
+        let locals = [("obj", static_fn_obj)].into_py_dict_bound(py);
+        Ok(Some(
+            if py
+                .eval_bound("isinstance(obj, staticmethod)", None, Some(&locals))?
+                .is_truthy()?
+            {
+                MethodType::StaticMethod
+            } else if py
+                .import_bound(pyo3::intern!(py, "inspect"))?
+                .call_method1(pyo3::intern!(py, "isfunction"), (function,))?
+                .is_truthy()?
+            {
+                MethodType::InstanceMethod
+            } else {
+                // Anything else than a function is already bound (or never gets bound to an instance)
+                MethodType::ClassMethod
+            },
+        ))
+    }
+
     /// Get the static object of a method (also if it is inherited) without binding it to the class.
     fn get_static_method<'py>(
         py: pyo3::Python<'py>,
-- 
2.43.0


From b71391771a219a6c6da1def087107779e94d4508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 71/74] fix: Limit the nesting of annotations instead of
 exhausting the stack

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 34 +++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 5248a5e..72af7ec 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -4,9 +4,40 @@ use itertools::Itertools;
 use pyo3::prelude::*;
 use std::str::FromStr;
 
+/// Maximum nesting of annotations. Types that are nested deeper are treated as unknown,
+/// because they would exhaust the stack or the recursion limit of `rustc`.
+const MAX_NESTING: usize = 32;
+
+/// Guard that counts how deeply the currently converted annotation is nested.
+struct NestingGuard;
+
+impl NestingGuard {
+    thread_local! {
+        static NESTING: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
+    }
+
+    fn enter() -> Option<Self> {
+        Self::NESTING.with(|nesting| {
+            (nesting.get() < MAX_NESTING).then(|| {
+                nesting.set(nesting.get() + 1);
+                Self
+            })
+        })
+    }
+}
+
+impl Drop for NestingGuard {
+    fn drop(&mut self) {
+        Self::NESTING.with(|nesting| nesting.set(nesting.get() - 1));
+    }
+}
+
 impl TryFrom<pyo3::Bound<'_, pyo3::types::PyAny>> for Type {
     type Error = PyBindgenError;
     fn try_from(value: pyo3::Bound<pyo3::types::PyAny>) -> Result<Self> {
+        let Some(_nesting) = NestingGuard::enter() else {
+            return Ok(Self::Unknown);
+        };
         match value {
             // None -> Unknown type
             none if none.is_none() => Ok(Self::Unknown),
@@ -275,6 +306,9 @@ impl Type {
 impl std::str::FromStr for Type {
     type Err = PyBindgenError;
     fn from_str(value: &str) -> Result<Self> {
+        let Some(_nesting) = NestingGuard::enter() else {
+            return Ok(Self::Unknown);
+        };
         Ok(match value {
             "Any" => Self::PyAny,
 
-- 
2.43.0


From bf1110adf0af11d410a0e8614c5a00731b1c9fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:51 +0000
Subject: [PATCH 72/74] fix: import the module of a class to find out the kinds
 of its methods

---
 pyo3_bindgen_engine/src/syntax/function.rs | 28 ++++++++++++----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 9c5423a..e163472 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -347,19 +347,23 @@ impl Function {
         name: &Ident,
     ) -> Option<&'py pyo3::types::PyAny> {
         // Get the class object from its class path
-        let class = py
-            .import_bound(
+        // The module must be imported because submodules are not necessarily attributes of their package
+        let class = (1..class_path.len())
+            .rev()
+            .find_map(|i| {
+                let module = py
+                    .import_bound(Path::from(&class_path[..i]).to_py().as_str())
+                    .ok()?;
+                Some((i, module))
+            })
+            .ok_or_else(|| pyo3::exceptions::PyImportError::new_err(class_path.to_py()))
+            .and_then(|(i, module)| {
                 class_path
-                    .root()
-                    .unwrap_or_else(|| unreachable!())
-                    .to_py()
-                    .as_str(),
-            )
-            .and_then(|root_module| {
-                class_path.iter().skip(1).try_fold(
-                    root_module.extract::<&pyo3::types::PyAny>()?,
-                    |module, name| module.getattr(name.as_py()),
-                )
+                    .iter()
+                    .skip(i)
+                    .try_fold(module.extract::<&pyo3::types::PyAny>()?, |module, name| {
+                        module.getattr(name.as_py())
+                    })
             });
 
         class
-- 
2.43.0


From 1bb097b21c415dc27780a5ec342ae9c244bb9c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:10 +0000
Subject: [PATCH 73/74] fix: keep submodules and re-exports that share their
 names with imports

---
 pyo3_bindgen_engine/src/syntax/import.rs |  4 ++++
 pyo3_bindgen_engine/src/syntax/module.rs | 22 +++++++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/import.rs b/pyo3_bindgen_engine/src/syntax/import.rs
index 4155937..d3a8ca4 100644
--- a/pyo3_bindgen_engine/src/syntax/import.rs
+++ b/pyo3_bindgen_engine/src/syntax/import.rs
@@ -22,6 +22,10 @@ impl Import {
         self.import_type == ImportType::ExternalImport
     }
 
+    pub fn is_submodule_reexport(&self) -> bool {
+        self.import_type == ImportType::SubmoduleReexport
+    }
+
     pub fn generate(&self, _cfg: &Config) -> Result<proc_macro2::TokenStream> {
         // For now, we only generate imports for submodule reexports
         if self.import_type != ImportType::SubmoduleReexport {
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index d66ec87..37316ad 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -150,12 +150,14 @@ impl Module {
                             return Ok(());
                         }
 
-                        // Determine if the import overwrites a submodule
-                        let import_overwrites_submodule = submodules_to_process.contains(&attr_name);
-
                         // Generate the import
                         let import = Import::new(origin, attr_name_full);
 
+                        // Determine if the import overwrites a submodule
+                        // Note: Only reexports are part of the bindings, other imports do not hide anything
+                        let import_overwrites_submodule = import.is_submodule_reexport()
+                            && submodules_to_process.contains(&attr_name);
+
                         // Add the import to the appropriate list
                         if import_overwrites_submodule {
                             conflicting_imports.push(import);
@@ -224,8 +226,18 @@ impl Module {
                         .iter()
                         .find(|import| import.target == full_submodule_name)
                     {
-                        if let Ok(submodule) = py
-                            .import_bound(full_submodule_name.to_py().as_str())
+                        // The import does not need to originate from the submodule that it overwrites
+                        if !conflicting_import.origin.starts_with(&full_submodule_name) {
+                            imports.push(conflicting_import.clone());
+                        } else if let Ok(submodule) = py
+                            .import_bound(
+                                conflicting_import
+                                    .origin
+                                    .parent()
+                                    .unwrap_or_default()
+                                    .to_py()
+                                    .as_str(),
+                            )
                             .map_err(crate::PyBindgenError::from)
                             .and_then(|module| Self::parse(cfg, &module))
                         {
-- 
2.43.0


From 74d149c573eebb8016466212128208c09cb5b67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:15 +0000
Subject: [PATCH 74/74] fix: generate preludes of modules whose __all__ is a
 tuple

---
 pyo3_bindgen_engine/src/syntax/module.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 37316ad..2b960bb 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -588,8 +588,12 @@ impl Module {
         // Note: `PyModuleMethods::index()` is not used because it would add the attribute to modules without it
         let mut index_attr_names = if let Ok(index) = module
             .getattr(pyo3::intern!(module.py(), "__all__"))
-            .and_then(|index| Ok(index.downcast_into::<pyo3::types::PyList>()?))
-        {
+            .and_then(
+                |index| match index.downcast_into::<pyo3::types::PyTuple>() {
+                    Ok(index) => Ok(index.to_list()),
+                    Err(err) => Ok(err.into_inner().downcast_into::<pyo3::types::PyList>()?),
+                },
+            ) {
             index
                 .iter()
                 .map(|x| x.to_string())
-- 
2.43.0

