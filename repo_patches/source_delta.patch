From 911221911940fc04b037262d4d880bc2a2a432a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:30 +0000
Subject: [PATCH 01/24] fix: read and write scalars through unaligned pointers

Nothing aligns the byte slices handed to read_scalar and emplace_scalar: a
builder created with an odd capacity, or a buffer that starts at an odd
address, dereferenced a misaligned pointer (undefined behaviour, and an abort
in debug builds).
---
 butte/src/endian_scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte/src/endian_scalar.rs b/butte/src/endian_scalar.rs
index 1264591..5f5f25b 100644
--- a/butte/src/endian_scalar.rs
+++ b/butte/src/endian_scalar.rs
@@ -157,7 +157,7 @@ pub fn emplace_scalar<T: EndianScalar>(s: &mut [u8], x: T) {
     let mut_ptr = (&mut s[..sz]).as_mut_ptr() as *mut T;
     let val = x.to_little_endian();
     unsafe {
-        *mut_ptr = val;
+        mut_ptr.write_unaligned(val);
     }
 }
 
@@ -176,7 +176,7 @@ pub fn read_scalar<T: EndianScalar>(s: &[u8]) -> Result<T, Error> {
     let sz = size_of::<T>();
 
     let p = s.get(..sz).ok_or(Error::OutOfBounds)?.as_ptr() as *const T;
-    let x = unsafe { *p };
+    let x = unsafe { p.read_unaligned() };
 
     Ok(x.from_little_endian())
 }
-- 
2.43.0


From 8d32c112fb4478af4b817089f3e9a315dfd1b2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:30 +0000
Subject: [PATCH 02/24] fix: report a vtable offset that points before the
 buffer as OutOfBounds

A table whose soffset is larger than its own location (or is i32::MIN) made
BackwardsSOffset::follow overflow: a panic in debug builds, and a wrapped
location in release builds.
---
 butte/src/primitives.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/butte/src/primitives.rs b/butte/src/primitives.rs
index 6bfe7fc..45121ca 100644
--- a/butte/src/primitives.rs
+++ b/butte/src/primitives.rs
@@ -258,7 +258,11 @@ impl<'a, T: Follow<'a>> Follow<'a> for BackwardsSOffset<T> {
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
         let slice = buf.get(loc..loc + SIZE_SOFFSET).ok_or(Error::OutOfBounds)?;
         let off = read_scalar::<SOffsetT>(slice)?;
-        T::follow(buf, (loc as SOffsetT - off) as usize)
+        let target = loc as i64 - off as i64;
+        if target < 0 {
+            return Err(Error::OutOfBounds);
+        }
+        T::follow(buf, target as usize)
     }
 }
 
-- 
2.43.0


From 8a70c31f88cf021e74078fec4ebd398d7193298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:30 +0000
Subject: [PATCH 03/24] fix: VTable::num_fields and get_field on short vtables

num_fields underflowed (a panic) when the vtable's stored size was below its
own header, and get_field(num_fields) read the two bytes after the vtable.
---
 butte/src/vtable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte/src/vtable.rs b/butte/src/vtable.rs
index cc7df14..a63e29f 100644
--- a/butte/src/vtable.rs
+++ b/butte/src/vtable.rs
@@ -36,7 +36,7 @@ impl<'a> VTable<'a> {
         VTable { buf, loc }
     }
     pub fn num_fields(&self) -> Result<usize, Error> {
-        Ok((self.num_bytes()? / SIZE_VOFFSET) - 2)
+        Ok((self.num_bytes()? / SIZE_VOFFSET).saturating_sub(VTABLE_METADATA_FIELDS))
     }
     pub fn num_bytes(&self) -> Result<usize, Error> {
         Ok(read_scalar_at::<VOffsetT>(self.buf, self.loc)? as usize)
@@ -46,7 +46,7 @@ impl<'a> VTable<'a> {
         Ok(n as usize)
     }
     pub fn get_field(&self, idx: usize) -> Result<Option<VOffsetT>, Error> {
-        if idx > self.num_fields()? {
+        if idx >= self.num_fields()? {
             return Ok(None);
         }
         read_scalar_at::<VOffsetT>(
-- 
2.43.0


From 74e695b4ce33d4279411fe1f136d1ca2c5b89928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:30 +0000
Subject: [PATCH 04/24] fix: VectorIter::nth with a huge n

The location may wrap, as the comment says, but sz * n panicked in debug
builds before it could: v.iter().nth(usize::MAX).
---
 butte/src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index dfd2c46..0a5ff0c 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -252,7 +252,7 @@ impl<'a, T: Follow<'a> + 'a> Iterator for VectorIter<'a, T> {
 
         // Note that this might overflow, but that is okay because
         // in that case self.remaining will have been set to zero.
-        self.loc = self.loc.wrapping_add(sz * n);
+        self.loc = self.loc.wrapping_add(sz.wrapping_mul(n));
 
         self.next()
     }
-- 
2.43.0


From 0c724599cf04f5a13ce5e2ff4f5c3fe59d16c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:30 +0000
Subject: [PATCH 05/24] fix: FlatBufferBuilder::reset forgets the fields of an
 unfinished table

reset left field_locs alone, so the fields of a table abandoned by a reset
appeared in the next table's vtable.
---
 butte/src/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index bcf4418..30ced3d 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -110,6 +110,7 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
         }
 
         self.head = self.owned_buf.len();
+        self.field_locs.clear();
         self.written_vtable_revpos.clear();
 
         self.nested = false;
-- 
2.43.0


From 275aeab8533d42f8e750a73cba93ffd2d34da6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:30 +0000
Subject: [PATCH 06/24] fix: apply the 2 GiB limit to the whole buffer

ensure_capacity compared only the size of the next write with the limit, so
several writes together grew the buffer past what 32-bit offsets can address.
---
 butte/src/builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index 30ced3d..5a4a6e8 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -634,13 +634,13 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
 
     #[inline]
     fn ensure_capacity(&mut self, want: usize) -> usize {
-        if self.unused_ready_space() >= want {
-            return want;
-        }
         assert!(
-            want <= FLATBUFFERS_MAX_BUFFER_SIZE,
+            want <= FLATBUFFERS_MAX_BUFFER_SIZE - self.used_space(),
             "cannot grow buffer beyond 2 gigabytes"
         );
+        if self.unused_ready_space() >= want {
+            return want;
+        }
 
         while self.unused_ready_space() < want {
             self.grow_owned_buf();
-- 
2.43.0


From 500bf4b152c2340b38fd48a9254de4612fb2288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:30 +0000
Subject: [PATCH 07/24] fix: keep the file identifier next to the root offset

When nothing wider than a u16 had been written, finish aligned the buffer to
less than the root offset needs, and the padding for the root offset then fell
between it and the file identifier.
---
 butte/src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index 5a4a6e8..9c6feaf 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -587,7 +587,7 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
         };
 
         {
-            let ma = PushAlignment::new(self.min_align);
+            let ma = PushAlignment::new(self.min_align).max_of(SIZE_UOFFSET);
             self.align(to_align, ma);
         }
 
-- 
2.43.0


From 77c82cbf8de70039267c740906b525e37ad4f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:30 +0000
Subject: [PATCH 08/24] fix: refuse to view a misaligned vector as a slice

safe_slice and the &[T] Follow impl created a &[T] from any address, which is
undefined behaviour (and a panic in debug builds) when a hostile buffer, or a
buffer at an odd address, puts the elements off T's alignment.
---
 butte/src/error.rs  | 3 +++
 butte/src/vector.rs | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/butte/src/error.rs b/butte/src/error.rs
index c7a622d..53bc165 100644
--- a/butte/src/error.rs
+++ b/butte/src/error.rs
@@ -11,6 +11,8 @@ pub enum Error {
     RequiredFieldMissing(&'static str),
     /// Returned if a string is not null-terminated,
     NonNullTerminatedString,
+    /// Returned if a vector cannot be viewed as a slice because of its alignment
+    UnalignedSlice,
     /// Returned if a buffer refers to an unknown enum variant
     UnknownEnumVariant,
     /// Returned if a buffer refers to an unknown union variant
@@ -26,6 +28,7 @@ impl fmt::Display for Error {
             Error::RequiredFieldMissing(m) => write!(f, "required field is missing: {}", m),
             Error::NonUtf8String => write!(f, "string is not UTF8 encoded"),
             Error::NonNullTerminatedString => write!(f, "string is not terminated with null"),
+            Error::UnalignedSlice => write!(f, "vector is not aligned for slice access"),
             Error::UnknownEnumVariant => write!(f, "unknown enum variant"),
             Error::UnknownUnionVariant => write!(f, "unknown union variant"),
             Error::NoTypeDefaultValue => write!(f, "type does not have a default value"),
diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index 0a5ff0c..405fc14 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -18,7 +18,7 @@
 use std::{
     iter::{DoubleEndedIterator, ExactSizeIterator, FusedIterator},
     marker::PhantomData,
-    mem::size_of,
+    mem::{align_of, size_of},
     slice::from_raw_parts,
     str::from_utf8,
 };
@@ -93,6 +93,9 @@ impl<'a, T: SafeSliceAccess + 'a> Vector<'a, T> {
             .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
             .ok_or(Error::OutOfBounds)?;
         let ptr = data_buf.as_ptr() as *const T;
+        if ptr as usize % align_of::<T>() != 0 {
+            return Err(Error::UnalignedSlice);
+        }
         let s: &'a [T] = unsafe { from_raw_parts(ptr, len) };
         Ok(s)
     }
@@ -169,6 +172,9 @@ fn follow_slice_helper<T>(buf: &[u8], loc: usize) -> Result<&[T], Error> {
         .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
         .ok_or(Error::OutOfBounds)?;
     let ptr = data_buf.as_ptr() as *const T;
+    if ptr as usize % align_of::<T>() != 0 {
+        return Err(Error::UnalignedSlice);
+    }
     let s: &[T] = unsafe { from_raw_parts(ptr, len) };
     Ok(s)
 }
-- 
2.43.0


From f842549fcb75087a0d6a96b4393cf854ea3c2b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:09 +0000
Subject: [PATCH 09/24] fix: report a short or non-ASCII parse remainder
 without panicking

The error message sliced 30 bytes out of the unparsed text, which panics when
fewer are left or when byte 30 is inside a character.
---
 butte-build/src/compile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index 1f22894..f664e1a 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -28,7 +28,7 @@ pub fn compile_fbs_generic(
     if !rest.is_empty() {
         return Err(anyhow!(
             "Parse was incomplete: not parsed: {}...",
-            &rest[..30]
+            rest.chars().take(30).collect::<String>()
         ));
     }
     let root = Builder::build(schema).map_err(|e| anyhow!("semantic analysis failed, {}", e))?;
-- 
2.43.0


From b8b09237c66f8242353fc4eeac423bad79e5d9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:09 +0000
Subject: [PATCH 10/24] fix: substitute the reserved keyword try

A field named try generated code that does not compile in Rust 2018.
---
 butte-build/src/ir/keywords.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/butte-build/src/ir/keywords.rs b/butte-build/src/ir/keywords.rs
index 7fa914c..fa3b34e 100644
--- a/butte-build/src/ir/keywords.rs
+++ b/butte-build/src/ir/keywords.rs
@@ -49,6 +49,7 @@ pub fn substitute_keyword(input: &str) -> Option<&'static str> {
         "macro" => "macro_",
         "override" => "override_",
         "priv" => "priv_",
+        "try" => "try_",
         "typeof" => "typeof_",
         "unsized" => "unsized_",
         "virtual" => "virtual_",
-- 
2.43.0


From c3b757fbe22db6b1109e5942ef399a800673f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:09 +0000
Subject: [PATCH 11/24] fix: an enum variant without a value follows the
 previous variant

The generated code gave it its index instead of the previous value plus one,
so enum E: byte { A = 5, B } encoded B as 1, and { A = 1, B } did not compile.
---
 butte-build/src/codegen.rs | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 2a1b532..791f8dc 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -5,7 +5,7 @@ use heck::{ShoutySnakeCase, SnakeCase};
 use itertools::Itertools;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, ToTokens};
-use std::{convert::TryInto, fmt};
+use std::fmt;
 use syn::spanned::Spanned;
 
 #[cfg(test)]
@@ -910,26 +910,20 @@ impl ToTokens for ir::Enum<'_> {
             .next();
 
         // assign a value to the key if one was given, otherwise give it the
-        // enumerated index's value
-        let variants_and_scalars = variants.iter().enumerate().map(
-            |(
-                index,
-                ir::EnumVariant {
-                    ident: key,
-                    value,
-                    doc,
-                },
-            )| {
+        // previous variant's value plus one, starting at zero
+        let variants_and_scalars = variants.iter().scan(
+            0,
+            |next_value: &mut ast::IntegerConstant,
+             ir::EnumVariant {
+                 ident: key,
+                 value,
+                 doc,
+             }| {
                 // format the value with the correct type, i.e., base_type
-                let scalar_value = if let Some(constant) = *value {
-                    constant
-                } else {
-                    index
-                        .try_into()
-                        .expect("invalid conversion to enum base type")
-                };
+                let scalar_value = value.unwrap_or(*next_value);
+                *next_value = scalar_value + 1;
                 let formatted_value = scalar_value.fmt_lit(base_type.to_token_stream());
-                (quote!(#key), quote!(#formatted_value), doc)
+                Some((quote!(#key), quote!(#formatted_value), doc))
             },
         );
 
-- 
2.43.0


From b7f34e91f607a0e04275c35d4fb4848c8f2bb57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:32 +0000
Subject: [PATCH 12/24] fix: retry a deferred definition in its own namespace

A definition that refers to a type declared further down is retried after the
whole schema has been read, when the current namespace is the last one in the
file: it was then resolved, and emitted, in that namespace.
---
 butte-build/src/ir/transform.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index cfbd41e..71bccd5 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -539,7 +539,7 @@ impl<'a> Builder<'a> {
             .elements
             .into_iter()
             .enumerate()
-            .map(|(i, el)| IndexedElement(i, el))
+            .map(|(i, el)| (None, IndexedElement(i, el)))
             .collect();
 
         // Loop until all types can be defined
@@ -547,9 +547,13 @@ impl<'a> Builder<'a> {
         loop {
             let mut unsatisfied = VecDeque::new();
             let nodes_len = context.nodes.len();
-            while let Some(element) = input.pop_front() {
+            while let Some((namespace, element)) = input.pop_front() {
+                // an element that is retried belongs to the namespace it was declared in
+                if let Some(namespace) = namespace {
+                    context.current_namespace = namespace;
+                }
                 if !context.new_element(&element)? {
-                    unsatisfied.push_back(element);
+                    unsatisfied.push_back((Some(context.current_namespace.clone()), element));
                 }
             }
             if unsatisfied.is_empty() {
@@ -559,7 +563,7 @@ impl<'a> Builder<'a> {
                 if context.nodes.len() == nodes_len {
                     let unsatisfied_elements = unsatisfied
                         .into_iter()
-                        .map(|IndexedElement(_, element)| element)
+                        .map(|(_, IndexedElement(_, element))| element)
                         .collect::<Vec<_>>();
                     return Err(anyhow!("Unable to type schema: the following definitions referenced items not found: {:?}", unsatisfied_elements));
                     // TODO proper reporting
-- 
2.43.0


From ab662876dd76500fd4ee320e22659fdf737a1843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:07 +0000
Subject: [PATCH 13/24] fix: keep generated names usable when snake case turns
 them into keywords

---
 butte-build/src/codegen.rs      | 14 ++++++++++----
 butte-build/src/ir/transform.rs |  4 +++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 791f8dc..8388aeb 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -215,7 +215,7 @@ fn to_default_value(
         },
         // Enum field default variant
         ast::DefaultValue::Ident(i) => {
-            let variant = format_ident!("{}", i.raw);
+            let variant = ir::Ident::from(i);
             quote!(<#arg_ty>::#variant).to_token_stream()
         }
     }
@@ -352,6 +352,12 @@ mod to_default_value_tests {
     }
 }
 
+/// The snake case form of an identifier. The conversion may give a Rust keyword
+/// (e.g. `fn_` or `Fn` become `fn`), which has to be substituted again.
+fn to_snake_ident(ident: &ir::Ident<'_>) -> ir::Ident<'static> {
+    ir::Ident::from(ident.as_ref().to_snake_case())
+}
+
 fn offset_id(field: &ir::Field<'_>) -> impl ToTokens {
     format_ident!("VT_{}", field.ident.as_ref().to_shouty_snake_case())
 }
@@ -469,7 +475,7 @@ impl ToTokens for ir::Table<'_> {
                         // Handle customized default values
                         if ty.is_enum() {
                             let default_name = if let ast::DefaultValue::Ident(i) = default_value {
-                                format_ident!("{}", i.raw)
+                                ir::Ident::from(i)
                             } else {
                                 panic!("expecting default ident for enum")
                             };
@@ -577,7 +583,7 @@ impl ToTokens for ir::Table<'_> {
                 ..
             } = field;
             let offset_name = offset_id(field);
-            let snake_name = format_ident!("{}", ident.as_ref().to_snake_case());
+            let snake_name = to_snake_ident(ident);
             let snake_name_str = snake_name.to_string();
             let ty_ret = to_type_token(
                 table_ns_ref,
@@ -1125,7 +1131,7 @@ impl<'a> CodeGenerator<'a> {
             ir::Node::Enum(e) => e.to_tokens(tokens),
             ir::Node::Union(u) => u.to_tokens(tokens),
             ir::Node::Namespace(n) => {
-                let ident = format_ident!("{}", n.ident.simple().as_ref().to_snake_case());
+                let ident = to_snake_ident(n.ident.simple());
                 let mut nodes_ts = TokenStream::default();
                 for node in &n.nodes {
                     self.node_to_tokens(node, rpc_gen, &mut nodes_ts);
diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 71bccd5..3f13b42 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -116,7 +116,9 @@ impl<'a> Builder<'a> {
                     let ty = self
                         .find_custom_type(enum_ty_ident.clone())
                         .expect("Union enum type companion should be defined now");
-                    let ident = ir::Ident::from(format!("{}_type", &f.id.raw.to_snake_case()));
+                    let field_ident = ir::Ident::from(&f.id);
+                    let ident =
+                        ir::Ident::from(format!("{}_type", field_ident.as_ref().to_snake_case()));
                     let default_value = None;
                     let metadata = ir::FieldMetadata::builder().required(required).build();
                     let doc = f.doc.clone();
-- 
2.43.0


From ffc04b3ee398e58414d508a225c424383b471d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:36 +0000
Subject: [PATCH 14/24] fix: refer to namespace modules by the snake case name
 they are emitted with

---
 butte-build/src/codegen.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 8388aeb..97dc0d8 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -879,7 +879,19 @@ impl ToTokens for ir::QualifiedIdent<'_> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         let parts = &self.parts;
         debug_assert!(!self.parts.is_empty());
-        let code = parts.iter().map(|e| e.raw.as_ref()).join("::");
+        // everything but the last part names a module, which is emitted in snake case
+        let last = parts.len() - 1;
+        let code = parts
+            .iter()
+            .enumerate()
+            .map(|(i, part)| {
+                if i == last || part.as_ref() == "super" {
+                    part.clone()
+                } else {
+                    to_snake_ident(part)
+                }
+            })
+            .join("::");
         syn::parse_str::<syn::Path>(&code)
             .expect("Cannot parse path")
             .to_tokens(tokens)
-- 
2.43.0


From f1e40af71093138e555018205db1010962ba3335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:18 +0000
Subject: [PATCH 15/24] fix: a namespace named like an item is not part of the
 path to the item

---
 butte-build/src/ir/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index 0deb591..b7dd5d2 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -522,8 +522,8 @@ impl<'a> QualifiedIdent<'a> {
 
     pub fn relative(&self, namespace: Option<&QualifiedIdent<'a>>) -> QualifiedIdent<'a> {
         if let Some(ns) = namespace {
-            let common_prefix_len = self
-                .parts
+            // the last part is the item itself, not a namespace
+            let common_prefix_len = self.parts[..self.parts.len() - 1]
                 .iter()
                 .zip(ns.parts.iter())
                 .take_while(|(a, b)| a == b)
-- 
2.43.0


From 30ffa3ed62f721bcc9d18c934a6dbbb5b0805676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:55 +0000
Subject: [PATCH 16/24] fix: match the literals true, false, nan and inf only
 where they stand

---
 butte-build/src/ast/parser.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index b8241fb..a417c11 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -1965,14 +1965,14 @@ mod hex_integer_constant_tests {
 
 pub fn true_(input: &str) -> IResult<&str, BooleanConstant> {
     value(true, |input: &str| {
-        nom::re_match!(input, r"\btrue\b")?;
+        nom::re_match!(input, r"^true\b")?;
         tag("true")(input)
     })(input)
 }
 
 pub fn false_(input: &str) -> IResult<&str, BooleanConstant> {
     value(false, |input: &str| {
-        nom::re_match!(input, r"\bfalse\b")?;
+        nom::re_match!(input, r"^false\b")?;
         tag("false")(input)
     })(input)
 }
@@ -2179,8 +2179,9 @@ pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
 /// Parse `nan`
 pub fn nan(input: &str) -> IResult<&str, FloatingConstant> {
     map(
-        terminated(opt(plus_or_minus), |input| {
-            nom::re_match!(input, r"\bnan\b")
+        terminated(opt(plus_or_minus), |input: &str| {
+            nom::re_match!(input, r"^nan\b")?;
+            tag("nan")(input)
         }),
         |sign| {
             if let Some('-') = sign {
@@ -2227,8 +2228,9 @@ mod nan_tests {
 /// Parse `inf` or `infinity`
 pub fn inf_or_infinity(input: &str) -> IResult<&str, FloatingConstant> {
     map(
-        terminated(opt(plus_or_minus), |input| {
-            nom::re_match!(input, r"\binf(inity)?\b")
+        terminated(opt(plus_or_minus), |input: &str| {
+            nom::re_match!(input, r"^inf(inity)?\b")?;
+            alt((tag("infinity"), tag("inf")))(input)
         }),
         |sign| {
             if let Some('-') = sign {
-- 
2.43.0


From 9a198d87e869064d5c3e1977a2eb220769d4b495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:12 +0000
Subject: [PATCH 17/24] fix: accept hexadecimal floating point literals

---
 butte-build/src/ast/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index a417c11..c0dba35 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -2161,7 +2161,7 @@ pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
                 ),
                 terminated(hex_digit1, hex_float_exponent),
             ))),
-            |value| parse_hexf64(value, false),
+            |value| parse_hexf64(&format!("0x{}", value), false),
         ),
     ));
     map(
-- 
2.43.0


From be8bab82ad6bee573fc36d826b11d0d5e725716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:35 +0000
Subject: [PATCH 18/24] fix: emit nan and infinite defaults as constants

---
 butte-build/src/codegen.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 97dc0d8..393b9c6 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -188,16 +188,26 @@ impl PrimitiveLiteralToken for ast::IntegerConstant {
 }
 
 impl PrimitiveLiteralToken for ast::FloatingConstant {
-    type TokenType = syn::LitFloat;
+    type TokenType = TokenStream;
 
     fn fmt_lit(&self, ty: impl Spanned + fmt::Display) -> Self::TokenType {
-        Self::TokenType::new(
-            &match ty.to_string().as_str() {
-                float_ty @ "f32" => format!("{}{}", *self as f32, float_ty),
-                float_ty => format!("{}{}", self, float_ty),
-            },
-            ty.span(),
-        )
+        let float_ty = ty.to_string();
+        let (value, is_finite) = match float_ty.as_str() {
+            "f32" => ((*self as f32).to_string(), (*self as f32).is_finite()),
+            _ => (self.to_string(), self.is_finite()),
+        };
+        if is_finite {
+            return syn::LitFloat::new(&format!("{}{}", value, float_ty), ty.span())
+                .to_token_stream();
+        }
+        // there are no literals for these
+        let module = format_ident!("{}", float_ty);
+        let name = format_ident!("{}", if self.is_nan() { "NAN" } else { "INFINITY" });
+        if self.is_sign_negative() {
+            quote!(-std::#module::#name)
+        } else {
+            quote!(std::#module::#name)
+        }
     }
 }
 
-- 
2.43.0


From 80e1a0908d2a8118b90e38fdb28b806bc283c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:55 +0000
Subject: [PATCH 19/24] fix: accept type names that begin with the name of a
 builtin type

---
 butte-build/src/ast/parser.rs | 54 +++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index c0dba35..f975be1 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -1272,32 +1272,42 @@ SayHello // foo
     }
 }
 
+/// Parse the name of a builtin type, unless it is only the beginning of a longer name
+fn type_name<'a>(name: &'static str) -> impl Fn(&'a str) -> IResult<&'a str, &'a str> {
+    terminated(
+        tag(name),
+        not(take_while_m_n(1, 1, |c: char| {
+            c.is_alphanumeric() || c == '_' || c == '.'
+        })),
+    )
+}
+
 pub fn type_(input: &str) -> IResult<&str, Type<'_>> {
     alt((
         alt((
-            value(Type::Bool, tag("bool")),
-            value(Type::Byte, tag("byte")),
-            value(Type::UByte, tag("ubyte")),
-            value(Type::Short, tag("short")),
-            value(Type::UShort, tag("ushort")),
-            value(Type::Long, tag("long")),
-            value(Type::ULong, tag("ulong")),
-            value(Type::Double, tag("double")),
-            value(Type::Int8, tag("int8")),
-            value(Type::UInt8, tag("uint8")),
-            value(Type::Int16, tag("int16")),
-            value(Type::UInt16, tag("uint16")),
-            value(Type::Int32, tag("int32")),
-            value(Type::UInt32, tag("uint32")),
-            value(Type::Int64, tag("int64")),
-            value(Type::UInt64, tag("uint64")),
-            value(Type::Float32, tag("float32")),
-            value(Type::Float64, tag("float64")),
-            value(Type::Int, tag("int")),
-            value(Type::UInt, tag("uint")),
-            value(Type::Float, tag("float")),
+            value(Type::Bool, type_name("bool")),
+            value(Type::Byte, type_name("byte")),
+            value(Type::UByte, type_name("ubyte")),
+            value(Type::Short, type_name("short")),
+            value(Type::UShort, type_name("ushort")),
+            value(Type::Long, type_name("long")),
+            value(Type::ULong, type_name("ulong")),
+            value(Type::Double, type_name("double")),
+            value(Type::Int8, type_name("int8")),
+            value(Type::UInt8, type_name("uint8")),
+            value(Type::Int16, type_name("int16")),
+            value(Type::UInt16, type_name("uint16")),
+            value(Type::Int32, type_name("int32")),
+            value(Type::UInt32, type_name("uint32")),
+            value(Type::Int64, type_name("int64")),
+            value(Type::UInt64, type_name("uint64")),
+            value(Type::Float32, type_name("float32")),
+            value(Type::Float64, type_name("float64")),
+            value(Type::Int, type_name("int")),
+            value(Type::UInt, type_name("uint")),
+            value(Type::Float, type_name("float")),
         )),
-        value(Type::String, tag("string")),
+        value(Type::String, type_name("string")),
         map(
             delimited(left_square_bracket, type_, right_square_bracket),
             |t| Type::from([t]),
-- 
2.43.0


From 645c9dd2b22ad894f937298c1ce1286343affa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:15 +0000
Subject: [PATCH 20/24] fix: accept 0 and 1 as defaults of bool fields

---
 butte-build/src/codegen.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 393b9c6..80e5e3b 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -180,10 +180,14 @@ trait PrimitiveLiteralToken {
 }
 
 impl PrimitiveLiteralToken for ast::IntegerConstant {
-    type TokenType = syn::LitInt;
+    type TokenType = TokenStream;
 
     fn fmt_lit(&self, ty: impl Spanned + fmt::Display) -> Self::TokenType {
-        Self::TokenType::new(&format!("{}{}", self, ty), ty.span())
+        let int_ty = ty.to_string();
+        if int_ty == "bool" {
+            return (*self != 0).to_token_stream();
+        }
+        syn::LitInt::new(&format!("{}{}", self, int_ty), ty.span()).to_token_stream()
     }
 }
 
-- 
2.43.0


From df155adc2f25b6f0e5e614dd525d2cb2aefc2ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:24 +0000
Subject: [PATCH 21/24] fix: keep the explicit values of union variants

---
 butte-build/src/ir/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 3f13b42..c303058 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -346,7 +346,7 @@ impl<'a> Builder<'a> {
         })
         .chain(u.variants.iter().map(|v| ir::EnumVariant {
             ident: v.id.into(),
-            value: None,
+            value: v.value,
             doc: v.doc.clone(),
         }))
         .collect();
-- 
2.43.0


From 62ef754c794be2f396ee4192bf0027f4033ce22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:21 +0000
Subject: [PATCH 22/24] fix: let enums and unions have variants named Inner or
 Error

Self::Inner and Self::Error are ambiguous in the impls of an enum with such a
variant, which rustc rejects.
---
 butte-build/src/codegen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 80e5e3b..62d592b 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -1008,7 +1008,7 @@ impl ToTokens for ir::Enum<'_> {
             impl<'a> butte::Follow<'a> for #enum_id {
                 type Inner = Self;
 
-                fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, butte::Error> {
+                fn follow(buf: &'a [u8], loc: usize) -> Result<Self, butte::Error> {
                     let scalar = butte::read_scalar_at::<#base_type>(buf, loc)?;
                     <Self as std::convert::TryFrom<#base_type>>::try_from(scalar)
                 }
@@ -1016,7 +1016,7 @@ impl ToTokens for ir::Enum<'_> {
 
             impl std::convert::TryFrom<#base_type> for #enum_id {
                 type Error = butte::Error;
-                fn try_from(value: #base_type) -> Result<Self, Self::Error> {
+                fn try_from(value: #base_type) -> Result<Self, butte::Error> {
                     match value {
                         #(#from_base_to_enum_variants,)*
                         _ => Err(butte::Error::UnknownEnumVariant)
-- 
2.43.0


From 544e732ffa670226daf7fa0dc5aaea1eda2caed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:40 +0000
Subject: [PATCH 23/24] fix: a union of a table that uses the union resolves in
 either order

---
 butte-build/src/ir/transform.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index c303058..a7d2e6a 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -548,7 +548,8 @@ impl<'a> Builder<'a> {
         // or stop if we make no progress
         loop {
             let mut unsatisfied = VecDeque::new();
-            let nodes_len = context.nodes.len();
+            // a table that is only declared so far lets others be defined, too
+            let progress = (context.nodes.len(), context.types.len());
             while let Some((namespace, element)) = input.pop_front() {
                 // an element that is retried belongs to the namespace it was declared in
                 if let Some(namespace) = namespace {
@@ -562,7 +563,7 @@ impl<'a> Builder<'a> {
                 break; // everything is satisfied
             } else {
                 // Didn't we progress?
-                if context.nodes.len() == nodes_len {
+                if (context.nodes.len(), context.types.len()) == progress {
                     let unsatisfied_elements = unsatisfied
                         .into_iter()
                         .map(|(_, IndexedElement(_, element))| element)
-- 
2.43.0


From f3851aa4fee0be4e04ece3948c892c0e1d5baafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:14 +0000
Subject: [PATCH 24/24] fix: hexadecimal floating literals without a point are
 accepted

---
 butte-build/src/ast/parser.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index f975be1..9d1a792 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -2160,19 +2160,23 @@ pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
         terminated(opt(plus_or_minus), terminated(zero, one_of("xX"))),
         // parse the number without the sign to avoid having to spell out the
         // return type of a closure to map_res
-        map_res(
-            recognize(alt((
-                terminated(
+        alt((
+            map_res(
+                recognize(terminated(
                     alt((
                         terminated(terminated(hex_digit1, period), hex_digit0),
                         preceded(period, hex_digit1),
                     )),
                     opt(hex_float_exponent),
-                ),
-                terminated(hex_digit1, hex_float_exponent),
-            ))),
-            |value| parse_hexf64(&format!("0x{}", value), false),
-        ),
+                )),
+                |value| parse_hexf64(&format!("0x{}", value), false),
+            ),
+            // parse_hexf64 takes no number without a point
+            map_res(
+                tuple((hex_digit1, hex_float_exponent)),
+                |(digits, exponent)| parse_hexf64(&format!("0x{}.{}", digits, exponent), false),
+            ),
+        )),
     ));
     map(
         parser,
-- 
2.43.0

