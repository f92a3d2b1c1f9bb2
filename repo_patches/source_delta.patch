From ecc9aaad04b7e3431154056b15d8b44dc68a6ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 01/19] fix: no_std Cursor seeks relative to the end and never
 overflows

---
 binread/src/io/cursor.rs | 43 +++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/binread/src/io/cursor.rs b/binread/src/io/cursor.rs
index c76fbc8..cd652b0 100644
--- a/binread/src/io/cursor.rs
+++ b/binread/src/io/cursor.rs
@@ -51,33 +51,30 @@ impl<T: AsRef<[u8]>> Read for Cursor<T> {
 
 impl<T: AsRef<[u8]>> Seek for Cursor<T> {
     fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
-        match pos {
-            SeekFrom::Current(x) => {
-                if (self.pos as i64) + x < 0 {
-                    Err(Error::new(
-                        ErrorKind::InvalidInput,
-                        "invalid seek to a negative or overflowing position",
-                    ))
-                } else {
-                    self.pos = ((self.pos as i64) + x) as u64;
-                    Ok(self.pos)
-                }
-            }
+        let (base, offset) = match pos {
             SeekFrom::Start(x) => {
                 self.pos = x;
-                Ok(self.pos)
+                return Ok(self.pos);
             }
-            SeekFrom::End(x) => {
-                let end = self.inner.as_ref().len() as i64;
-                if (self.pos as i64) + end + x < 0 {
-                    Err(Error::new(
-                        ErrorKind::InvalidInput,
-                        "invalid seek to a negative or overflowing position",
-                    ))
-                } else {
-                    Ok(self.pos)
-                }
+            SeekFrom::End(x) => (self.inner.as_ref().len() as u64, x),
+            SeekFrom::Current(x) => (self.pos, x),
+        };
+
+        let target = if offset < 0 {
+            base.checked_sub(offset.wrapping_neg() as u64)
+        } else {
+            base.checked_add(offset as u64)
+        };
+
+        match target {
+            Some(pos) => {
+                self.pos = pos;
+                Ok(self.pos)
             }
+            None => Err(Error::new(
+                ErrorKind::InvalidInput,
+                "invalid seek to a negative or overflowing position",
+            )),
         }
     }
 }
-- 
2.43.0


From dd0d7bcd26fd7db597c976527ea620ecb7fc264d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 02/19] fix: a failed try field restores the reader position

---
 binread_derive/src/codegen/read_options/struct.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index e1988bd..079737c 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -356,7 +356,17 @@ impl<'field> FieldGenerator<'field> {
         } else {
             let result = self.out;
             self.out = if self.field.do_try {
-                quote! { #result.ok() }
+                let handle_error = debug_template::handle_error();
+                quote! {{
+                    let #SAVED_POSITION = #POS_TRAIT::stream_pos(#READER)#handle_error?;
+                    match #result {
+                        Ok(value) => Some(value),
+                        Err(_) => {
+                            #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#SAVED_POSITION))#handle_error?;
+                            None
+                        }
+                    }
+                }}
             } else {
                 let handle_error = debug_template::handle_error();
                 quote! { #result#handle_error? }
-- 
2.43.0


From dddc71c6a9b81ff54006012800ebf4594fe2b25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 03/19] fix: magic on a unit-like enum is read and checked

---
 binread_derive/src/codegen/read_options.rs      | 14 ++++++++++++--
 binread_derive/src/codegen/read_options/enum.rs |  6 +++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index ca61e22..80d0d29 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -88,14 +88,24 @@ impl<'input> PreludeGenerator<'input> {
         self
     }
 
-    fn add_magic_pre_assertion(mut self) -> Self {
+    fn add_magic(mut self) -> Self {
         let magic = get_magic(self.input.magic(), &OPT);
+        let head = self.out;
+        self.out = quote! {
+            #head
+            #magic
+        };
+
+        self
+    }
+
+    fn add_magic_pre_assertion(mut self) -> Self {
+        self = self.add_magic();
         let pre_assertions = get_assertions(&self.input.pre_assertions());
         let head = self.out;
 
         self.out = quote! {
             #head
-            #magic
             #(#pre_assertions)*
         };
 
diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index a4e59d1..dd6587c 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -30,7 +30,10 @@ fn generate_unit_enum_repr(
         }
     });
 
-    let prelude = PreludeGenerator::new(input).add_options().finish();
+    let prelude = PreludeGenerator::new(input)
+        .add_options()
+        .add_magic()
+        .finish();
 
     quote! {
         #prelude
@@ -51,6 +54,7 @@ fn generate_unit_enum_magic(
     let prelude = PreludeGenerator::new(input)
         .add_imports()
         .add_options()
+        .add_magic()
         .finish();
 
     let matches = variants.iter().filter_map(|field| {
-- 
2.43.0


From 9732601585d154c307bff6d359831752bfad88e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 04/19] fix: assertions on unit structs are checked

---
 binread_derive/src/codegen/read_options/struct.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 079737c..859c149 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -8,9 +8,14 @@ use syn::Ident;
 
 pub(super) fn generate_unit_struct(input: &Input, variant_ident: Option<&Ident>) -> TokenStream {
     let prelude = get_prelude(input);
+    let assertions = match input {
+        Input::UnitStruct(st) => get_assertions(&st.assertions).collect::<Vec<_>>(),
+        _ => Vec::new(),
+    };
     let return_type = get_return_type(variant_ident);
     quote! {
         #prelude
+        #(#assertions)*
         Ok(#return_type)
     }
 }
-- 
2.43.0


From 95f7d921196e7af1447f96d5bb820d27ae981916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 05/19] fix: pre_assert on variants of repr enums is checked

---
 binread_derive/src/codegen/read_options/enum.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index dd6587c..0db4aa0 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -23,14 +23,19 @@ fn generate_unit_enum_repr(
 ) -> TokenStream {
     let clauses = variants.iter().map(|variant| {
         let ident = &variant.ident;
+        let pre_assertions = variant
+            .pre_assertions
+            .iter()
+            .map(|assert| &assert.condition);
         quote! {
-            if #TEMP == Self::#ident as #repr {
+            if #TEMP == Self::#ident as #repr #(&& (#pre_assertions))* {
                 Ok(Self::#ident)
             }
         }
     });
 
     let prelude = PreludeGenerator::new(input)
+        .add_imports()
         .add_options()
         .add_magic()
         .finish();
-- 
2.43.0


From e3a22f30fe5be3f347b7709696bf1c5ab55bd638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:15 +0000
Subject: [PATCH 06/19] fix: byte order, magic, imports and pre_assert apply to
 mapped objects

---
 binread_derive/src/codegen/read_options.rs   | 20 +++++++++++++++++---
 binread_derive/src/parser/top_level_attrs.rs |  5 +++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index 80d0d29..5d3ac51 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -20,16 +20,22 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
             Input::UnitOnlyEnum(e) => generate_unit_enum(input, e),
         },
         Map::Try(map) => {
+            let prelude = get_map_prelude(input);
             let map_err = get_map_err(POS);
             quote! {
+                #prelude
                 #READ_METHOD(#READER, #OPT, #ARGS).and_then(|value| {
                     #map(value)#map_err
                 })
             }
         }
-        Map::Map(map) => quote! {
-            #READ_METHOD(#READER, #OPT, #ARGS).map(#map)
-        },
+        Map::Map(map) => {
+            let prelude = get_map_prelude(input);
+            quote! {
+                #prelude
+                #READ_METHOD(#READER, #OPT, #ARGS).map(#map)
+            }
+        }
     };
 
     quote! {
@@ -43,6 +49,14 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
     }
 }
 
+fn get_map_prelude(input: &Input) -> TokenStream {
+    PreludeGenerator::new(input)
+        .add_imports()
+        .add_options()
+        .add_magic_pre_assertion()
+        .finish()
+}
+
 struct PreludeGenerator<'input> {
     input: &'input Input,
     out: TokenStream,
diff --git a/binread_derive/src/parser/top_level_attrs.rs b/binread_derive/src/parser/top_level_attrs.rs
index ec7f8a3..257dacb 100644
--- a/binread_derive/src/parser/top_level_attrs.rs
+++ b/binread_derive/src/parser/top_level_attrs.rs
@@ -91,11 +91,12 @@ impl Input {
         }
     }
 
-    pub(crate) fn pre_assertions(&self) -> &Vec<Assert> {
+    pub(crate) fn pre_assertions(&self) -> &[Assert] {
         match self {
             Input::Struct(s) | Input::UnitStruct(s) => &s.pre_assertions,
             Input::Enum(e) => &e.pre_assertions,
-            Input::UnitOnlyEnum(_) => unimplemented!("`Input::pre_assert()` called on unit enum"),
+            // unit enums do not have pre-assertions of their own
+            Input::UnitOnlyEnum(_) => &[],
         }
     }
 }
-- 
2.43.0


From 2b4d3b1fbdb21cde7e2a6bf56b3a7492ff7338b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 07/19] fix: Box resolves the pointers of its content

---
 binread/src/binread_impls.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/binread/src/binread_impls.rs b/binread/src/binread_impls.rs
index 2a4876f..530cfb3 100644
--- a/binread/src/binread_impls.rs
+++ b/binread/src/binread_impls.rs
@@ -289,6 +289,18 @@ impl<T: BinRead> BinRead for Box<T> {
     ) -> BinResult<Self> {
         Ok(Box::new(T::read_options(reader, options, args)?))
     }
+
+    fn after_parse<R>(
+        &mut self,
+        reader: &mut R,
+        ro: &ReadOptions,
+        args: Self::Args,
+    ) -> BinResult<()>
+    where
+        R: Read + Seek,
+    {
+        (**self).after_parse(reader, ro, args)
+    }
 }
 
 impl<T: BinRead> BinRead for Option<T> {
-- 
2.43.0


From 0d85e91c0e7887ae7e4a2e82dd5cc39b9c7404a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 08/19] fix: collection helpers pass the offset and count in
 force on to the elements

---
 binread/src/helpers.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index 419414f..a587f24 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -1,10 +1,29 @@
 use crate::{
     io::{ErrorKind::UnexpectedEof, Read, Seek},
-    BinRead, BinReaderExt, BinResult, ReadOptions,
+    BinRead, BinResult, ReadOptions,
 };
 #[cfg(not(feature = "std"))]
 use alloc::{vec, vec::Vec};
 
+/// Reads one complete element of a collection with the options of the collection
+fn read_element<T, R, Arg>(reader: &mut R, ro: &ReadOptions, args: Arg) -> BinResult<T>
+where
+    T: BinRead<Args = Arg>,
+    R: Read + Seek,
+    Arg: Clone,
+{
+    #[cfg(feature = "debug_template")]
+    let ro = &ReadOptions {
+        variable_name: None,
+        ..*ro
+    };
+
+    let mut value = T::read_options(reader, ro, args.clone())?;
+    value.after_parse(reader, ro, args)?;
+
+    Ok(value)
+}
+
 /// A helper for more efficiently mass-reading bytes
 ///
 ///## Example:
@@ -64,11 +83,11 @@ where
 {
     move |reader, ro, args| {
         let mut result = Vec::new();
-        let mut last = reader.read_type_args(ro.endian, args.clone())?;
+        let mut last = read_element(reader, ro, args.clone())?;
 
         while !cond(&last) {
             result.push(last);
-            last = reader.read_type_args(ro.endian, args.clone())?;
+            last = read_element(reader, ro, args.clone())?;
         }
 
         result.push(last);
@@ -105,11 +124,11 @@ where
 {
     move |reader, ro, args| {
         let mut result = Vec::new();
-        let mut last = reader.read_type_args(ro.endian, args.clone())?;
+        let mut last = read_element(reader, ro, args.clone())?;
 
         while !cond(&last) {
             result.push(last);
-            last = reader.read_type_args(ro.endian, args.clone())?;
+            last = read_element(reader, ro, args.clone())?;
         }
 
         Ok(result.into_iter().collect())
@@ -140,13 +159,13 @@ where
     Ret: core::iter::FromIterator<T>,
 {
     let mut result = Vec::new();
-    let mut last = reader.read_type_args(ro.endian, args.clone());
+    let mut last = read_element(reader, ro, args.clone());
 
     while !matches!(&last, Err(crate::Error::Io(err)) if err.kind() == UnexpectedEof) {
         last = match last {
             Ok(x) => {
                 result.push(x);
-                reader.read_type_args(ro.endian, args.clone())
+                read_element(reader, ro, args.clone())
             }
             Err(err) => return Err(err),
         }
@@ -183,7 +202,7 @@ where
 {
     move |reader, ro, args| {
         (0..n)
-            .map(|_| reader.read_type_args(ro.endian, args.clone()))
+            .map(|_| read_element(reader, ro, args.clone()))
             .collect()
     }
 }
-- 
2.43.0


From 15b6724de1ed312f6733af0b12df69d077521b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 09/19] fix: counts from the data do not cause allocations out
 of proportion to it

---
 binread/src/helpers.rs    | 15 ++++++++++++---
 binread/src/punctuated.rs |  8 ++++----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index a587f24..12e2b4d 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -3,7 +3,7 @@ use crate::{
     BinRead, BinResult, ReadOptions,
 };
 #[cfg(not(feature = "std"))]
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
 
 /// Reads one complete element of a collection with the options of the collection
 fn read_element<T, R, Arg>(reader: &mut R, ro: &ReadOptions, args: Arg) -> BinResult<T>
@@ -49,8 +49,17 @@ pub fn read_bytes<R: Read + Seek>(
         Some(x) => x,
         None => panic!("Missing count for read_bytes"),
     };
-    let mut buf = vec![0; count];
-    reader.read_exact(&mut buf)?;
+
+    // The count may come from untrusted data, so never allocate much more than
+    // what the reader has already delivered
+    const MIN_CHUNK: usize = 0x1000;
+    let mut buf = Vec::new();
+    while buf.len() < count {
+        let start = buf.len();
+        let end = count.min(start.saturating_add(start.max(MIN_CHUNK)));
+        buf.resize(end, 0);
+        reader.read_exact(&mut buf[start..])?;
+    }
 
     Ok(buf)
 }
diff --git a/binread/src/punctuated.rs b/binread/src/punctuated.rs
index bc27e50..d6e3d1e 100644
--- a/binread/src/punctuated.rs
+++ b/binread/src/punctuated.rs
@@ -66,8 +66,8 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
             None => panic!("Missing count for Punctuated"),
         };
 
-        let mut data = Vec::with_capacity(count);
-        let mut seperators = Vec::with_capacity(count.max(1) - 1);
+        let mut data = Vec::new();
+        let mut seperators = Vec::new();
 
         for i in 0..count {
             data.push(T::read_options(reader, &options, args)?);
@@ -92,8 +92,8 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
             None => panic!("Missing count for Punctuated"),
         };
 
-        let mut data = Vec::with_capacity(count);
-        let mut seperators = Vec::with_capacity(count);
+        let mut data = Vec::new();
+        let mut seperators = Vec::new();
 
         for _ in 0..count {
             data.push(T::read_options(reader, &options, args)?);
-- 
2.43.0


From 8974feccc2717c3c9afcff0e4ed43690b0cf3b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:55 +0000
Subject: [PATCH 10/19] fix: Punctuated resolves the pointers of its elements

---
 binread/src/punctuated.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/binread/src/punctuated.rs b/binread/src/punctuated.rs
index d6e3d1e..3ea1642 100644
--- a/binread/src/punctuated.rs
+++ b/binread/src/punctuated.rs
@@ -70,9 +70,9 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
         let mut seperators = Vec::new();
 
         for i in 0..count {
-            data.push(T::read_options(reader, &options, args)?);
+            data.push(read_element(reader, options, args)?);
             if i + 1 != count {
-                seperators.push(P::read_options(reader, options, ())?);
+                seperators.push(read_element(reader, options, ())?);
             }
         }
 
@@ -96,14 +96,25 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
         let mut seperators = Vec::new();
 
         for _ in 0..count {
-            data.push(T::read_options(reader, &options, args)?);
-            seperators.push(P::read_options(reader, options, ())?);
+            data.push(read_element(reader, options, args)?);
+            seperators.push(read_element(reader, options, ())?);
         }
 
         Ok(Self { data, seperators })
     }
 }
 
+fn read_element<T: BinRead, R: Read + Seek>(
+    reader: &mut R,
+    options: &ReadOptions,
+    args: T::Args,
+) -> BinResult<T> {
+    let mut value = T::read_options(reader, options, args)?;
+    value.after_parse(reader, options, args)?;
+
+    Ok(value)
+}
+
 impl<T: BinRead + fmt::Debug, P: BinRead> fmt::Debug for Punctuated<T, P> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         self.data.fmt(f)
-- 
2.43.0


From 2c7d3239d7f15b4ada0b063a59cfaa005d2886dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:15 +0000
Subject: [PATCH 11/19] fix: an I/O error from try_map is reported as one, also
 in no_std crates

---
 binread/src/private.rs                     | 13 +++++++++++++
 binread_derive/src/codegen/read_options.rs |  7 +------
 binread_derive/src/codegen/sanitization.rs |  1 +
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/binread/src/private.rs b/binread/src/private.rs
index 4126656..ae11801 100644
--- a/binread/src/private.rs
+++ b/binread/src/private.rs
@@ -48,6 +48,19 @@ where
     f
 }
 
+// Converts the error of a `try_map` function: an I/O error stays one, any other
+// error becomes a custom error.
+pub fn map_error<E>(pos: u64, error: E) -> Error
+where
+    E: core::any::Any + Sync + Send + 'static,
+{
+    let error: Box<dyn core::any::Any + Sync + Send> = Box::new(error);
+    match error.downcast::<io::Error>() {
+        Ok(error) => Error::Io(*error),
+        Err(err) => Error::Custom { pos, err },
+    }
+}
+
 pub fn try_after_parse<Reader, ValueType, ArgType>(
     item: &mut Option<ValueType>,
     reader: &mut Reader,
diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index 5d3ac51..8569bdc 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -167,12 +167,7 @@ fn get_magic(magic: &Magic, options_var: &impl ToTokens) -> Option<TokenStream>
 
 fn get_map_err(pos: IdentStr) -> TokenStream {
     quote! {
-        .map_err(|e| {
-            #BIN_ERROR::Custom {
-                pos: #pos,
-                err: Box::new(e) as _,
-            }
-        })
+        .map_err(|e| #MAP_ERROR(#pos, e))
     }
 }
 
diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index aea3b77..f951e92 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -51,6 +51,7 @@ ident_str! {
     pub(super) ASSERT = from_crate!(__private::assert);
     pub(super) ASSERT_ERROR_FN = from_crate!(__private::AssertErrorFn);
     pub(super) COERCE_FN = from_crate!(__private::coerce_fn);
+    pub(super) MAP_ERROR = from_crate!(__private::map_error);
     pub(super) TRY_AFTER_PARSE = from_crate!(__private::try_after_parse);
     pub(super) TEMP = "__binread_temp";
     pub(super) POS = "__binread_generated_position_temp";
-- 
2.43.0


From a8017c465aea8e81f7c0eb7227a317cc143750d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:15 +0000
Subject: [PATCH 12/19] fix: NullString::to_string does not panic on invalid
 UTF-8

---
 binread/src/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index e931961..f936943 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -241,7 +241,7 @@ impl core::ops::Deref for NullWideString {
 
 impl ToString for NullString {
     fn to_string(&self) -> String {
-        core::str::from_utf8(&self).unwrap().to_string()
+        String::from_utf8_lossy(self).into()
     }
 }
 
-- 
2.43.0


From e12d4674e43ee1408785794cc411662a35f7d53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:15 +0000
Subject: [PATCH 13/19] fix: debug_template reports reader failures instead of
 panicking

---
 binread/src/file_ptr.rs | 2 +-
 binread/src/strings.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/binread/src/file_ptr.rs b/binread/src/file_ptr.rs
index a7e0aa5..a82a48a 100644
--- a/binread/src/file_ptr.rs
+++ b/binread/src/file_ptr.rs
@@ -84,7 +84,7 @@ impl<Ptr: BinRead<Args = ()> + IntoSeekFrom, BR: BinRead> BinRead for FilePtr<Pt
         let options = &{
             let mut options = *options;
 
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
             let type_name = &core::any::type_name::<Ptr>();
             if let Some(name) = options.variable_name {
                 binary_template::write_named(
diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index f936943..558c81b 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -155,7 +155,7 @@ impl BinRead for NullWideString {
         #[cfg(feature = "debug_template")]
         let options = {
             let mut options = *options;
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
 
             if !options.dont_output_to_template {
                 binary_template::write_named(
@@ -188,7 +188,7 @@ impl BinRead for NullString {
     ) -> BinResult<Self> {
         #[cfg(feature = "debug_template")]
         {
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
 
             if !options.dont_output_to_template {
                 binary_template::write_named(
-- 
2.43.0


From 1e4241524b0d81dc28d6db6a9c83fc8a45041535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:15 +0000
Subject: [PATCH 14/19] fix: fields with raw identifiers do not panic the
 derive

---
 binread_derive/src/codegen/sanitization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index f951e92..be69219 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -59,7 +59,7 @@ ident_str! {
 }
 
 pub(crate) fn make_ident(ident: &Ident, kind: &str) -> Ident {
-    format_ident!("__binread_generated_{}_{}", kind, ident.to_string())
+    format_ident!("__binread_generated_{}_{}", kind, ident)
 }
 
 /// A string wrapper that converts the str to a $path `TokenStream`, allowing
-- 
2.43.0


From a0335d18023e357d6a489105c47f73e0f7c8e69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:37 +0000
Subject: [PATCH 15/19] fix: try_map on an object accepts a closure

---
 binread_derive/src/codegen/read_options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index 8569bdc..ce93305 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -25,7 +25,7 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
             quote! {
                 #prelude
                 #READ_METHOD(#READER, #OPT, #ARGS).and_then(|value| {
-                    #map(value)#map_err
+                    (#map)(value)#map_err
                 })
             }
         }
-- 
2.43.0


From 4168ea90f38f0f071f4fc2e47935f7e0a9f034b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:01 +0000
Subject: [PATCH 16/19] fix: pad_size_to does not overflow when reading the
 value moved backwards

---
 binread_derive/src/codegen/read_options/struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 859c149..d0f3005 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -444,7 +444,7 @@ fn generate_seek_after(field: &StructField) -> TokenStream {
     let pad_size_to = field.pad_size_to.as_ref().map(|pad| {
         quote! {{
             let pad = (#pad) as i64;
-            let size = (#POS_TRAIT::stream_pos(#READER)#handle_error? - #POS) as i64;
+            let size = #POS_TRAIT::stream_pos(#READER)#handle_error?.wrapping_sub(#POS) as i64;
             if size < pad {
                 #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(pad - size))#handle_error?;
             }
-- 
2.43.0


From 166735f4f0fef46a2ee977d152c64b665c5a2e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:09 +0000
Subject: [PATCH 17/19] fix: debug template brackets structs also when reading
 a variant or an assertion fails

---
 binread_derive/src/codegen/read_options.rs    | 14 +++++++++---
 .../codegen/read_options/debug_template.rs    | 22 ++++++-------------
 .../src/codegen/read_options/struct.rs        | 18 +--------------
 3 files changed, 19 insertions(+), 35 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index ce93305..cc7ffac 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -15,7 +15,7 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
     let inner = match input.map() {
         Map::None => match input {
             Input::UnitStruct(_) => generate_unit_struct(input, None),
-            Input::Struct(s) => generate_struct(ident, input, s),
+            Input::Struct(s) => generate_struct(input, s),
             Input::Enum(e) => generate_data_enum(e),
             Input::UnitOnlyEnum(e) => generate_unit_enum(input, e),
         },
@@ -38,14 +38,22 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
         }
     };
 
-    quote! {
-        let #POS = #POS_TRAIT::stream_pos(#READER)?;
+    let read = quote! {
         (|| {
             #inner
         })().or_else(|error| {
             #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS))?;
             Err(error)
         })
+    };
+    let read = match (input, input.map()) {
+        (Input::Struct(_), Map::None) => debug_template::wrap_struct(ident, read),
+        _ => read,
+    };
+
+    quote! {
+        let #POS = #POS_TRAIT::stream_pos(#READER)?;
+        #read
     }
 }
 
diff --git a/binread_derive/src/codegen/read_options/debug_template.rs b/binread_derive/src/codegen/read_options/debug_template.rs
index 1e3d4cf..541283f 100644
--- a/binread_derive/src/codegen/read_options/debug_template.rs
+++ b/binread_derive/src/codegen/read_options/debug_template.rs
@@ -1,4 +1,4 @@
-use crate::codegen::sanitization::OPT;
+use crate::codegen::sanitization::{OPT, TEMP};
 use proc_macro2::TokenStream;
 use quote::quote;
 use syn::Ident;
@@ -9,23 +9,11 @@ ident_str! {
     WRITE_END_STRUCT = from_crate!(binary_template::write_end_struct);
 }
 
-pub(super) fn end() -> TokenStream {
-    if cfg!(feature = "debug_template") {
-        quote! {
-            #WRITE_END_STRUCT(#OPT.variable_name);
-        }
-    } else {
-        <_>::default()
-    }
-}
-
 pub(super) fn handle_error() -> TokenStream {
     if cfg!(feature = "debug_template") {
-        let write_end_struct = end();
         quote! {
             .map_err(|e| {
                 #WRITE_COMMENT(&format!("Error: {:?}", e));
-                #write_end_struct
                 e
             })
         }
@@ -34,13 +22,17 @@ pub(super) fn handle_error() -> TokenStream {
     }
 }
 
-pub(super) fn start(struct_name: &Ident) -> TokenStream {
+/// Brackets everything a struct reads, whether reading it succeeds or not
+pub(super) fn wrap_struct(struct_name: &Ident, body: TokenStream) -> TokenStream {
     if cfg!(feature = "debug_template") {
         let struct_name = struct_name.to_string();
         quote! {
             #WRITE_START_STRUCT(#struct_name);
+            let #TEMP = { #body };
+            #WRITE_END_STRUCT(#OPT.variable_name);
+            #TEMP
         }
     } else {
-        <_>::default()
+        body
     }
 }
diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index d0f3005..e2d134e 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -20,10 +20,9 @@ pub(super) fn generate_unit_struct(input: &Input, variant_ident: Option<&Ident>)
     }
 }
 
-pub(super) fn generate_struct(ident: &Ident, input: &Input, st: &Struct) -> TokenStream {
+pub(super) fn generate_struct(input: &Input, st: &Struct) -> TokenStream {
     StructGenerator::new(input, st)
         .read_fields()
-        .wrap_debug(ident)
         .add_assertions(core::iter::empty())
         .return_value(None)
         .finish()
@@ -99,21 +98,6 @@ impl<'input> StructGenerator<'input> {
 
         self
     }
-
-    pub(super) fn wrap_debug(mut self, ident: &Ident) -> Self {
-        if cfg!(feature = "debug_template") {
-            let debug_tpl_start = debug_template::start(&ident);
-            let debug_tpl_end = debug_template::end();
-            let body = self.out;
-            self.out = quote! {
-                #debug_tpl_start
-                #body
-                #debug_tpl_end
-            };
-        }
-
-        self
-    }
 }
 
 fn generate_after_parse(field: &StructField) -> Option<TokenStream> {
-- 
2.43.0


From 96658d44955188752d19fa74267dd13f3a5daf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:16 +0000
Subject: [PATCH 18/19] fix: debug template states the byte order of values
 read in native order

---
 binread/src/binary_template.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/binread/src/binary_template.rs b/binread/src/binary_template.rs
index 1c0d6f1..ed003f6 100644
--- a/binread/src/binary_template.rs
+++ b/binread/src/binary_template.rs
@@ -76,7 +76,8 @@ pub fn write_named(endian: Endian, pos: u64, type_name: &str, var_name: &str) {
     match endian {
         Endian::Big => writeln!(*file, "BigEndian();"),
         Endian::Little => writeln!(*file, "LittleEndian();"),
-        _ => writeln!(*file),
+        Endian::Native if cfg!(target_endian = "big") => writeln!(*file, "BigEndian();"),
+        Endian::Native => writeln!(*file, "LittleEndian();"),
     };
 
     let color_index = CURRENT_VAR_NUM.fetch_add(1, Ordering::SeqCst) & 0x3f;
@@ -152,7 +153,8 @@ pub fn write_vec_named(endian: Endian, pos: u64, type_name: &str, count: usize,
     match endian {
         Endian::Big => writeln!(*file, "BigEndian();"),
         Endian::Little => writeln!(*file, "LittleEndian();"),
-        _ => writeln!(*file),
+        Endian::Native if cfg!(target_endian = "big") => writeln!(*file, "BigEndian();"),
+        Endian::Native => writeln!(*file, "LittleEndian();"),
     };
 
     let color_index = CURRENT_VAR_NUM.fetch_add(1, Ordering::SeqCst) & 0x3f;
-- 
2.43.0


From 54ece5ca4aca4876bc5e3611be81669c1cd51261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:35 +0000
Subject: [PATCH 19/19] fix: an imported argument named value is not shadowed
 in an object-level try_map

---
 binread_derive/src/codegen/read_options.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index cc7ffac..36bcd1b 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -24,8 +24,8 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
             let map_err = get_map_err(POS);
             quote! {
                 #prelude
-                #READ_METHOD(#READER, #OPT, #ARGS).and_then(|value| {
-                    (#map)(value)#map_err
+                #READ_METHOD(#READER, #OPT, #ARGS).and_then(|#TEMP| {
+                    (#map)(#TEMP)#map_err
                 })
             }
         }
-- 
2.43.0

