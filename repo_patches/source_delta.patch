From cc5a9d67f2899639edefec473ffc3621e82fc44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:16 +0000
Subject: [PATCH 01/22] fix: parsing an array no longer drops uninitialised
 elements or leaks on error

Assigning through as_mut_ptr dropped the uninitialised previous value of each
slot (undefined behaviour for any P with drop glue), and the elements parsed
before a failing one were never dropped.
---
 nommy/src/impls.rs | 24 ++++++++++++------------
 nommy/src/lib.rs   |  2 --
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/nommy/src/impls.rs b/nommy/src/impls.rs
index 2364f9e..bfb0aa7 100644
--- a/nommy/src/impls.rs
+++ b/nommy/src/impls.rs
@@ -1,7 +1,7 @@
 //! Implemtations of [`Parse`] and [`Peek`] for types in
 //! the rust standard library
 use crate::{eyre, Buffer, Context, Parse};
-use std::mem::MaybeUninit;
+use std::convert::TryInto;
 
 /// Result is `None` if parsing `P` fails, otherwise, result is `Some(p)`
 impl<P: Parse<T>, T> Parse<T> for Option<P> {
@@ -155,18 +155,18 @@ impl<P: Parse<T>, T> Parse<T> for Vec1<P> {
 /// ```
 impl<P: Parse<T>, T, const N: usize> Parse<T> for [P; N] {
     fn parse(input: &mut impl Buffer<T>) -> eyre::Result<Self> {
-        // safety: we only return the new data if no errors occured,
-        // and if no errors occured, then we definitely filled all N spaces
-        // therefore the array was initialised.
-        unsafe {
-            let mut output = MaybeUninit::uninit_array();
-            for (i, output) in output.iter_mut().enumerate() {
-                *output.as_mut_ptr() =
-                    P::parse(input).wrap_err_with(|| format!("could not parse element {}", i))?;
-            }
-
-            Ok(MaybeUninit::array_assume_init(output))
+        // collected into a vec first, so that the elements already parsed
+        // are dropped if a later step fails
+        let mut output = Vec::with_capacity(N);
+        for i in 0..N {
+            output.push(
+                P::parse(input).wrap_err_with(|| format!("could not parse element {}", i))?,
+            );
         }
+
+        Ok(output
+            .try_into()
+            .unwrap_or_else(|_| unreachable!("exactly N elements were parsed")))
     }
 
     fn peek(input: &mut impl Buffer<T>) -> bool {
diff --git a/nommy/src/lib.rs b/nommy/src/lib.rs
index a83100a..aee2981 100644
--- a/nommy/src/lib.rs
+++ b/nommy/src/lib.rs
@@ -1,7 +1,5 @@
 #![allow(incomplete_features)]
 #![feature(array_map)]
-#![feature(maybe_uninit_uninit_array)]
-#![feature(maybe_uninit_array_assume_init)]
 #![feature(const_generics)]
 #![deny(missing_docs)]
 #![warn(clippy::pedantic)]
-- 
2.43.0


From 18613eb04d0f9d3e91039865e9339d3681934d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:16 +0000
Subject: [PATCH 02/22] fix: text::Tag takes as many chars as the tag has, not
 as many as its UTF-8 bytes

A tag with a non-ASCII char failed unless the input ended right after it, and
peek consumed too much.
---
 nommy/src/text/tag.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nommy/src/text/tag.rs b/nommy/src/text/tag.rs
index bffbc2d..99d1bc0 100644
--- a/nommy/src/text/tag.rs
+++ b/nommy/src/text/tag.rs
@@ -15,7 +15,7 @@ pub struct Tag<const TAG: &'static str>;
 
 impl<const TAG: &'static str> Parse<char> for Tag<TAG> {
     fn parse(input: &mut impl Buffer<char>) -> eyre::Result<Self> {
-        let s = String::from_iter(input.take(TAG.len()));
+        let s = String::from_iter(input.take(TAG.chars().count()));
         if TAG == s {
             Ok(Self)
         } else {
@@ -24,7 +24,7 @@ impl<const TAG: &'static str> Parse<char> for Tag<TAG> {
     }
 
     fn peek(input: &mut impl Buffer<char>) -> bool {
-        TAG.chars().eq(input.take(TAG.len()))
+        TAG.chars().eq(input.take(TAG.chars().count()))
     }
 }
 
-- 
2.43.0


From c0474b24fd98639ee00ffae3bc1a2fd906908993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:16 +0000
Subject: [PATCH 03/22] fix: text::WhileNot1::peek stops at the end of the
 input

It succeeded on empty input, where parse fails, and looped forever when none
of the excluded chars followed.
---
 nommy/src/text/many.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nommy/src/text/many.rs b/nommy/src/text/many.rs
index ee9df2d..1cae61d 100644
--- a/nommy/src/text/many.rs
+++ b/nommy/src/text/many.rs
@@ -87,13 +87,15 @@ impl<const CHARS: &'static str> Parse<char> for WhileNot1<CHARS> {
     }
 
     fn peek(input: &mut impl Buffer<char>) -> bool {
-        if OneOf::<CHARS>::peek(input) {
-            return false;
+        match input.next() {
+            Some(c) if !CHARS.contains(c) => {}
+            _ => return false,
         }
         loop {
             let mut cursor = input.cursor();
-            if OneOf::<CHARS>::peek(&mut cursor) {
-                break;
+            match cursor.next() {
+                Some(c) if !CHARS.contains(c) => {}
+                _ => break,
             }
             let pos = cursor.position();
             input.fast_forward(pos);
-- 
2.43.0


From 5e2be99d4982245811d6d044502ce6c992223d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:16 +0000
Subject: [PATCH 04/22] fix: a cursor at the end of its input does not advance

Cursor::next moved the position past the last element, so position() counted
elements that were never read, and fast-forwarding by it could skip elements
that a source yields later.
---
 nommy/src/buffer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nommy/src/buffer.rs b/nommy/src/buffer.rs
index 915278a..b96f1f1 100644
--- a/nommy/src/buffer.rs
+++ b/nommy/src/buffer.rs
@@ -197,9 +197,9 @@ impl<'a, T, B: Buffer<T>> Iterator for Cursor<'a, T, B> {
     type Item = T;
 
     fn next(&mut self) -> Option<T> {
-        let output = self.buf.peek_ahead(self.base + self.index);
+        let output = self.buf.peek_ahead(self.base + self.index)?;
         self.index += 1;
-        output
+        Some(output)
     }
 }
 
-- 
2.43.0


From 2d30339c48d8c839f0bb7f057d09c4b15c217981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:54 +0000
Subject: [PATCH 05/22] fix: derived peek of a field with inner_parser agrees
 with parse

peek did not know of seperated_by and trailing, so it rejected every list with
more than one element, and it skipped ignored tokens that parse does not.
---
 nommy-derive/src/fn_impl.rs | 59 ++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index b5dd3e8..c7f94cc 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -101,7 +101,8 @@ impl<'a> Builder<'a> {
             self.add_where(&parser);
             self.parse_impl
                 .extend(self.parser_parse_vec_tokens(&name, &attrs.vec));
-            self.peek_impl.extend(self.peeker_peek_vec_tokens(&parser));
+            self.peek_impl
+                .extend(self.peeker_peek_vec_tokens(&ty, &attrs.vec));
         } else {
             let parser: Option<&syn::Type> = (&attrs.parser).into();
             let parser = parser.unwrap_or(&ty);
@@ -232,7 +233,7 @@ impl<'a> Builder<'a> {
         }
     }
 
-    fn parser_parse_vec_tokens(&self, name: &syn::Ident, attrs: &VecFieldAttr) -> TokenStream {
+    fn parse_vec_tokens(&self, attrs: &VecFieldAttr) -> (TokenStream, TokenStream) {
         let generic = &self.generic;
 
         let parser: Option<&syn::Type> = (&attrs.parser).into();
@@ -253,51 +254,47 @@ impl<'a> Builder<'a> {
             }
         };
 
-        if let Some(sep) = &attrs.seperated_by {
+        let parse_vec = if let Some(sep) = &attrs.seperated_by {
             match &attrs.trailing {
                 Some(true) => quote! {
-                    let #name = ::nommy::vec::parse_vec_seperated_by_trailing::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)?;
-                    if #name.len() < #min {
-                        return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
-                    }
+                    ::nommy::vec::parse_vec_seperated_by_trailing::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)
                 },
                 Some(false) => quote! {
-                    let #name = ::nommy::vec::parse_vec_seperated_by_maybe_trailing::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)?;
-                    if #name.len() < #min {
-                        return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
-                    }
+                    ::nommy::vec::parse_vec_seperated_by_maybe_trailing::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)
                 },
                 None => quote! {
-                    let #name = ::nommy::vec::parse_vec_seperated_by::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)?;
-                    if #name.len() < #min {
-                        return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
-                    }
+                    ::nommy::vec::parse_vec_seperated_by::<#parser, _, #sep, __ParseIgnore, #generic, _>(#max, input)
                 },
             }
         } else {
             quote! {
-                let #name = ::nommy::vec::parse_vec::<#parser, _, __ParseIgnore, #generic, _>(#max, input)?;
-                if #name.len() < #min {
-                    return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
-                }
+                ::nommy::vec::parse_vec::<#parser, _, __ParseIgnore, #generic, _>(#max, input)
             }
-        }
+        };
+        (parse_vec, min)
     }
 
-    pub fn peeker_peek_vec_tokens(&self, ty: &syn::Type) -> TokenStream {
-        let generic = &self.generic;
-        let after_each = &self.after_each;
+    fn parser_parse_vec_tokens(&self, name: &syn::Ident, attrs: &VecFieldAttr) -> TokenStream {
+        let (parse_vec, min) = self.parse_vec_tokens(attrs);
 
         quote! {
-            loop {
-                let mut cursor = input.cursor();
-                if !<#ty as ::nommy::Parse<#generic>>::peek(&mut cursor) {
-                    break;
-                }
-                let pos = cursor.position();
-                input.fast_forward(pos);
+            let #name = #parse_vec?;
+            if #name.len() < #min {
+                return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
+            }
+        }
+    }
 
-                #after_each
+    fn peeker_peek_vec_tokens(&self, ty: &syn::Type, attrs: &VecFieldAttr) -> TokenStream {
+        let (parse_vec, min) = self.parse_vec_tokens(attrs);
+
+        quote! {
+            let elems: #ty = match #parse_vec {
+                Ok(elems) => elems,
+                Err(_) => return false,
+            };
+            if elems.len() < #min {
+                return false;
             }
         }
     }
-- 
2.43.0


From 227eca234ed99063bd2d08f39e77047afd9fa6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:54 +0000
Subject: [PATCH 06/22] fix: derived parsers skip ignored tokens after a field
 with inner_parser

As after any other field: '[ a, b ]' was rejected with ignore = WhiteSpace,
prefix = Tag<"[">, suffix = Tag<"]"> and seperated_by = Tag<",">.
---
 nommy-derive/src/fn_impl.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index c7f94cc..af16402 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -103,6 +103,7 @@ impl<'a> Builder<'a> {
                 .extend(self.parser_parse_vec_tokens(&name, &attrs.vec));
             self.peek_impl
                 .extend(self.peeker_peek_vec_tokens(&ty, &attrs.vec));
+            self.ignore();
         } else {
             let parser: Option<&syn::Type> = (&attrs.parser).into();
             let parser = parser.unwrap_or(&ty);
-- 
2.43.0


From ab424891319017dad0390c971db2dcb2961a28b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:55 +0000
Subject: [PATCH 07/22] fix: derive requires the seperated_by parser in its
 where clause

Without parse_type, seperated_by did not compile unless its type was also used
elsewhere in the same struct or enum.
---
 nommy-derive/src/fn_impl.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index af16402..bde7615 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -99,6 +99,9 @@ impl<'a> Builder<'a> {
             let parser: Option<&syn::Type> = (&attrs.vec.parser).into();
             let parser = parser.unwrap();
             self.add_where(&parser);
+            if let Some(sep) = &attrs.vec.seperated_by {
+                self.add_where(sep);
+            }
             self.parse_impl
                 .extend(self.parser_parse_vec_tokens(&name, &attrs.vec));
             self.peek_impl
-- 
2.43.0


From 75390b5eac57a4735002fb0f99717af8796afee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:08 +0000
Subject: [PATCH 08/22] fix: attribute types may have commas within their
 generic arguments

#[nommy(parser = Either<A, B>)] was split at the comma and rejected.
---
 nommy-derive/src/attr.rs | 68 ++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/nommy-derive/src/attr.rs b/nommy-derive/src/attr.rs
index 4883709..19ffa8c 100644
--- a/nommy-derive/src/attr.rs
+++ b/nommy-derive/src/attr.rs
@@ -29,6 +29,32 @@ fn parse_type(
     syn::parse2(stream)
 }
 
+/// Splits the arguments at each `,` that is not within the `<...>` of a type
+fn split_args(mut span: Span, tokens: TokenStream) -> Vec<(Span, TokenStream)> {
+    let mut args = Vec::new();
+    let mut stream = TokenStream::new();
+    let mut depth = 0_usize;
+    let mut arrow = false;
+    for tt in tokens {
+        if let TokenTree::Punct(p) = &tt {
+            match p.as_char() {
+                ',' if depth == 0 => {
+                    args.push((span, std::mem::take(&mut stream)));
+                    span = p.span();
+                    continue;
+                }
+                '<' => depth += 1,
+                '>' if !arrow => depth = depth.saturating_sub(1),
+                _ => {}
+            }
+            arrow = p.as_char() == '-';
+        }
+        stream.extend(vec![tt]);
+    }
+    args.push((span, stream));
+    args
+}
+
 impl GlobalAttr {
     pub fn extend_with(mut self, extend: &Self) -> Self {
         self.ignore.extend_from_slice(&extend.ignore);
@@ -72,24 +98,11 @@ impl GlobalAttr {
         Ok(())
     }
 
-    pub fn parse_args(&mut self, mut span: Span, tokens: TokenStream) -> syn::Result<()> {
-        let mut stream = TokenStream::new();
-        for tt in tokens {
-            match tt {
-                TokenTree::Punct(p) => {
-                    if p.as_char() == ',' {
-                        let mut tmp = TokenStream::new();
-                        std::mem::swap(&mut stream, &mut tmp);
-                        self.parse_arg(span, tmp)?;
-                        span = p.span();
-                    } else {
-                        stream.extend(vec![TokenTree::Punct(p)])
-                    }
-                }
-                _ => stream.extend(vec![tt]),
-            }
+    pub fn parse_args(&mut self, span: Span, tokens: TokenStream) -> syn::Result<()> {
+        for (span, arg) in split_args(span, tokens) {
+            self.parse_arg(span, arg)?;
         }
-        self.parse_arg(span, stream)
+        Ok(())
     }
 
     pub fn parse_arg(&mut self, span: Span, tokens: TokenStream) -> syn::Result<()> {
@@ -171,24 +184,11 @@ impl FieldAttr {
         Ok(())
     }
 
-    pub fn parse_args(&mut self, mut span: Span, tokens: TokenStream) -> syn::Result<()> {
-        let mut stream = TokenStream::new();
-        for tt in tokens {
-            match tt {
-                TokenTree::Punct(p) => {
-                    if p.as_char() == ',' {
-                        let mut tmp = TokenStream::new();
-                        std::mem::swap(&mut stream, &mut tmp);
-                        self.parse_arg(span, tmp)?;
-                        span = p.span();
-                    } else {
-                        stream.extend(vec![TokenTree::Punct(p)])
-                    }
-                }
-                _ => stream.extend(vec![tt]),
-            }
+    pub fn parse_args(&mut self, span: Span, tokens: TokenStream) -> syn::Result<()> {
+        for (span, arg) in split_args(span, tokens) {
+            self.parse_arg(span, arg)?;
         }
-        self.parse_arg(span, stream)
+        Ok(())
     }
 
     pub fn parse_arg(&mut self, span: Span, tokens: TokenStream) -> syn::Result<()> {
-- 
2.43.0


From 097c9fce572b7a6c2719e02b279fe549b34ba95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:26 +0000
Subject: [PATCH 09/22] fix: derive works for a field named `input`

The generated parse function bound each field to a variable of its own name,
so a field named input hid the buffer from the fields after it.
---
 nommy-derive/src/enum_impl/named.rs     | 9 +++++++--
 nommy-derive/src/enum_impl/unnamed.rs   | 4 ++--
 nommy-derive/src/fn_impl.rs             | 5 +++--
 nommy-derive/src/parsers.rs             | 4 ++++
 nommy-derive/src/struct_impl/named.rs   | 5 +++--
 nommy-derive/src/struct_impl/unnamed.rs | 4 ++--
 6 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/nommy-derive/src/enum_impl/named.rs b/nommy-derive/src/enum_impl/named.rs
index baa5524..4417cc3 100644
--- a/nommy-derive/src/enum_impl/named.rs
+++ b/nommy-derive/src/enum_impl/named.rs
@@ -1,5 +1,9 @@
 use super::Enum;
-use crate::{attr::GlobalAttr, fn_impl::FnImpl, parsers::NamedField};
+use crate::{
+    attr::GlobalAttr,
+    fn_impl::FnImpl,
+    parsers::{FieldType, NamedField},
+};
 use proc_macro2::TokenStream;
 use quote::quote;
 
@@ -28,11 +32,12 @@ impl EnumVariantNamed {
 
     pub fn result(&self, enum_: &Enum) -> TokenStream {
         let names = self.fields.iter().map(|f| &f.name);
+        let bindings = self.fields.iter().enumerate().map(|(i, f)| f.binding(i));
         let enum_name = &enum_.name;
         let variant_name = &self.name;
         quote! {
             Ok(#enum_name::#variant_name {#(
-                #names: #names,
+                #names: #bindings,
             )*})
         }
     }
diff --git a/nommy-derive/src/enum_impl/unnamed.rs b/nommy-derive/src/enum_impl/unnamed.rs
index a36975a..fbe2f1c 100644
--- a/nommy-derive/src/enum_impl/unnamed.rs
+++ b/nommy-derive/src/enum_impl/unnamed.rs
@@ -30,12 +30,12 @@ impl EnumVariantUnnamed {
     }
 
     pub fn result(&self, enum_: &Enum) -> TokenStream {
-        let names = self.fields.iter().enumerate().map(|(i, f)| f.name(i));
+        let bindings = self.fields.iter().enumerate().map(|(i, f)| f.binding(i));
         let enum_name = &enum_.name;
         let variant_name = &self.name;
         quote! {
             Ok(#enum_name::#variant_name (#(
-                #names,
+                #bindings,
             )*))
         }
     }
diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index bde7615..2d6d6b8 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -91,6 +91,7 @@ impl<'a> Builder<'a> {
     pub fn add_field<F: FieldType>(&mut self, field: &F, field_num: usize) {
         let ty = field.ty();
         let name = field.name(field_num);
+        let binding = field.binding(field_num);
         let attrs = field.attrs();
 
         self.add_fix(&attrs.prefix, "prefix", format!("field `{}`", name));
@@ -103,7 +104,7 @@ impl<'a> Builder<'a> {
                 self.add_where(sep);
             }
             self.parse_impl
-                .extend(self.parser_parse_vec_tokens(&name, &attrs.vec));
+                .extend(self.parser_parse_vec_tokens(&binding, &attrs.vec));
             self.peek_impl
                 .extend(self.peeker_peek_vec_tokens(&ty, &attrs.vec));
             self.ignore();
@@ -112,7 +113,7 @@ impl<'a> Builder<'a> {
             let parser = parser.unwrap_or(&ty);
             self.add_where(&parser);
             self.parse_impl.extend(self.parser_parse_tokens(
-                &name,
+                &binding,
                 &parser,
                 &format!("failed to parse field `{}`", name),
             ));
diff --git a/nommy-derive/src/parsers.rs b/nommy-derive/src/parsers.rs
index d05f59f..6468d92 100644
--- a/nommy-derive/src/parsers.rs
+++ b/nommy-derive/src/parsers.rs
@@ -42,6 +42,10 @@ pub struct UnnamedField {
 pub trait FieldType {
     fn ty(&self) -> &syn::Type;
     fn name(&self, i: usize) -> syn::Ident;
+    /// The variable the parsed field is bound to
+    fn binding(&self, i: usize) -> syn::Ident {
+        format_ident!("__field_{}", self.name(i))
+    }
     fn attrs(&self) -> &FieldAttr;
 }
 
diff --git a/nommy-derive/src/struct_impl/named.rs b/nommy-derive/src/struct_impl/named.rs
index 1d54bf5..549f35a 100644
--- a/nommy-derive/src/struct_impl/named.rs
+++ b/nommy-derive/src/struct_impl/named.rs
@@ -6,7 +6,7 @@ use quote::{quote, ToTokens};
 use crate::{
     attr::GlobalAttr,
     fn_impl::{parse_or, BuildOutput, FnImpl},
-    parsers::NamedField,
+    parsers::{FieldType, NamedField},
 };
 
 pub struct Named {
@@ -42,6 +42,7 @@ impl ToTokens for Named {
         } = fn_impl.build(&name);
 
         let names = self.fields.iter().map(|f| &f.name);
+        let bindings = self.fields.iter().enumerate().map(|(i, f)| f.binding(i));
 
         let impl_line = match attrs.parse_type {
             Some(_) => quote!{
@@ -61,7 +62,7 @@ impl ToTokens for Named {
                     #parse_impl
 
                     Ok(#name {#(
-                        #names,
+                        #names: #bindings,
                     )*})
                 }
 
diff --git a/nommy-derive/src/struct_impl/unnamed.rs b/nommy-derive/src/struct_impl/unnamed.rs
index fa1768b..7eab8ff 100644
--- a/nommy-derive/src/struct_impl/unnamed.rs
+++ b/nommy-derive/src/struct_impl/unnamed.rs
@@ -50,7 +50,7 @@ impl ToTokens for Unnamed {
             },
         };
 
-        let names = self.fields.iter().enumerate().map(|(i, f)| f.name(i));
+        let bindings = self.fields.iter().enumerate().map(|(i, f)| f.binding(i));
 
         tokens.extend(quote!{
             #[automatically_derived]
@@ -61,7 +61,7 @@ impl ToTokens for Unnamed {
                     #parse_impl
 
                     Ok(#name (#(
-                        #names,
+                        #bindings,
                     )*))
                 }
 
-- 
2.43.0


From 157a1e0effa3319d21abdb10f0f6ab028bef7fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:28 +0000
Subject: [PATCH 10/22] fix: derive works for enum variants that differ only in
 case

Their generated functions had the same name.
---
 nommy-derive/src/enum_impl/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nommy-derive/src/enum_impl/mod.rs b/nommy-derive/src/enum_impl/mod.rs
index 1040a2f..01ab492 100644
--- a/nommy-derive/src/enum_impl/mod.rs
+++ b/nommy-derive/src/enum_impl/mod.rs
@@ -49,7 +49,7 @@ impl ToTokens for Enum {
         outer_builder.add_fix(&attrs.prefix, "prefix", format!("enum `{}`", name));
         outer_builder.start_variants();
 
-        for v in vars {
+        for (i, v) in vars.iter().enumerate() {
             let BuildOutput {
                 peek_impl,
                 parse_impl,
@@ -59,8 +59,8 @@ impl ToTokens for Enum {
             outer_builder.add_where_raw(wc.clone());
 
             let var_name = map_vars!(v => |n| n.name.to_string().to_lowercase());
-            let parse_name = format_ident!("__parse_{}", var_name);
-            let peek_name = format_ident!("__peek_{}", var_name);
+            let parse_name = format_ident!("__parse_{}_{}", i, var_name);
+            let peek_name = format_ident!("__peek_{}_{}", i, var_name);
             let parse_result = map_vars!(v => |n| n.result(&self));
 
             outer_builder.add_variant(&peek_name, &parse_name);
-- 
2.43.0


From ee61079d666c8dc50a2edd66da231c6f5f949905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 11/22] monitor hook: a public Cursor constructor under
 cfg(nommy_monitor)

---
 nommy/src/buffer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nommy/src/buffer.rs b/nommy/src/buffer.rs
index b96f1f1..07dcdca 100644
--- a/nommy/src/buffer.rs
+++ b/nommy/src/buffer.rs
@@ -142,6 +142,12 @@ impl<'a, T, B: Buffer<T>> Cursor<'a, T, B> {
         }
     }
 
+    /// Create a cursor over any buffer, so that a runtime monitor can implement [`Buffer`]
+    #[cfg(nommy_monitor)]
+    pub fn monitor_over(buf: &'a mut B) -> Self {
+        Self::new(buf)
+    }
+
     /// Returns how far along the cursor has read beyond it's parent
     ///
     /// ```
-- 
2.43.0


From 0025c1c7ed3da37b1a2dd67bfb1fd6a9b6d75cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 12/22] fix: derive works for enum variants with raw
 identifiers

---
 nommy-derive/src/enum_impl/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nommy-derive/src/enum_impl/mod.rs b/nommy-derive/src/enum_impl/mod.rs
index 01ab492..64dae1b 100644
--- a/nommy-derive/src/enum_impl/mod.rs
+++ b/nommy-derive/src/enum_impl/mod.rs
@@ -7,6 +7,7 @@ use std::convert::TryInto;
 use named::EnumVariantNamed;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, ToTokens};
+use syn::ext::IdentExt;
 use unit::EnumVariantUnit;
 use unnamed::EnumVariantUnnamed;
 
@@ -58,7 +59,7 @@ impl ToTokens for Enum {
 
             outer_builder.add_where_raw(wc.clone());
 
-            let var_name = map_vars!(v => |n| n.name.to_string().to_lowercase());
+            let var_name = map_vars!(v => |n| n.name.unraw().to_string().to_lowercase());
             let parse_name = format_ident!("__parse_{}_{}", i, var_name);
             let peek_name = format_ident!("__peek_{}_{}", i, var_name);
             let parse_result = map_vars!(v => |n| n.result(&self));
-- 
2.43.0


From 2de9b61093696a6409d24f2331e6da6a9ed7af28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:09 +0000
Subject: [PATCH 13/22] fix: derive works for types named WrapErr or TryInto

---
 nommy-derive/src/enum_impl/mod.rs       | 8 ++++----
 nommy-derive/src/struct_impl/named.rs   | 4 ++--
 nommy-derive/src/struct_impl/unit.rs    | 4 ++--
 nommy-derive/src/struct_impl/unnamed.rs | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/nommy-derive/src/enum_impl/mod.rs b/nommy-derive/src/enum_impl/mod.rs
index 64dae1b..a461759 100644
--- a/nommy-derive/src/enum_impl/mod.rs
+++ b/nommy-derive/src/enum_impl/mod.rs
@@ -92,8 +92,8 @@ impl ToTokens for Enum {
                 impl<#(#args),*> #name<#(#args),*>
                 {
                     #parse_fn {
-                        use ::nommy::eyre::WrapErr;
-                        use ::std::convert::TryInto;
+                        use ::nommy::eyre::WrapErr as _;
+                        use ::std::convert::TryInto as _;
                         #parse_impl
                         #parse_result
                     }
@@ -130,8 +130,8 @@ impl ToTokens for Enum {
             #[automatically_derived]
             #impl_line {
                 fn parse(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
-                    use ::nommy::eyre::WrapErr;
-                    use ::std::convert::TryInto;
+                    use ::nommy::eyre::WrapErr as _;
+                    use ::std::convert::TryInto as _;
                     #parse_impl
 
                     Ok(result)
diff --git a/nommy-derive/src/struct_impl/named.rs b/nommy-derive/src/struct_impl/named.rs
index 549f35a..5a33945 100644
--- a/nommy-derive/src/struct_impl/named.rs
+++ b/nommy-derive/src/struct_impl/named.rs
@@ -57,8 +57,8 @@ impl ToTokens for Named {
             #[automatically_derived]
             #impl_line {
                 fn parse(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
-                    use ::nommy::eyre::WrapErr;
-                    use ::std::convert::TryInto;
+                    use ::nommy::eyre::WrapErr as _;
+                    use ::std::convert::TryInto as _;
                     #parse_impl
 
                     Ok(#name {#(
diff --git a/nommy-derive/src/struct_impl/unit.rs b/nommy-derive/src/struct_impl/unit.rs
index 55350f4..fb7c2ee 100644
--- a/nommy-derive/src/struct_impl/unit.rs
+++ b/nommy-derive/src/struct_impl/unit.rs
@@ -51,8 +51,8 @@ impl ToTokens for Unit {
             #[automatically_derived]
             #impl_line {
                 fn parse(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
-                    use ::nommy::eyre::WrapErr;
-                    use ::std::convert::TryInto;
+                    use ::nommy::eyre::WrapErr as _;
+                    use ::std::convert::TryInto as _;
                     #parse_impl
                     Ok(#name)
                 }
diff --git a/nommy-derive/src/struct_impl/unnamed.rs b/nommy-derive/src/struct_impl/unnamed.rs
index 7eab8ff..a16443a 100644
--- a/nommy-derive/src/struct_impl/unnamed.rs
+++ b/nommy-derive/src/struct_impl/unnamed.rs
@@ -56,8 +56,8 @@ impl ToTokens for Unnamed {
             #[automatically_derived]
             #impl_line {
                 fn parse(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
-                    use ::nommy::eyre::WrapErr;
-                    use ::std::convert::TryInto;
+                    use ::nommy::eyre::WrapErr as _;
+                    use ::std::convert::TryInto as _;
                     #parse_impl
 
                     Ok(#name (#(
-- 
2.43.0


From e6f25a451e70b3b09289f7d916f2066a62650dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:05 +0000
Subject: [PATCH 14/22] fix: derive reports a trailing parameter without a
 value

---
 nommy-derive/src/attr.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nommy-derive/src/attr.rs b/nommy-derive/src/attr.rs
index 19ffa8c..01dce87 100644
--- a/nommy-derive/src/attr.rs
+++ b/nommy-derive/src/attr.rs
@@ -205,15 +205,19 @@ impl FieldAttr {
             "parser" => self.parser = Some(parse_type(ident.span(), tokens)?),
             "inner_parser" => self.vec.parser = Some(parse_type(ident.span(), tokens)?),
             "seperated_by" => self.vec.seperated_by = Some(parse_type(ident.span(), tokens)?),
-            "trailing" => self.parse_trailing(tokens)?,
+            "trailing" => self.parse_trailing(ident.span(), tokens)?,
             _ => return Err(syn::Error::new_spanned(ident, "unknown parameter")),
         }
         Ok(())
     }
 
-    pub fn parse_trailing(&mut self, mut tokens: proc_macro2::token_stream::IntoIter) -> syn::Result<()> {
+    pub fn parse_trailing(
+        &mut self,
+        span: Span,
+        mut tokens: proc_macro2::token_stream::IntoIter,
+    ) -> syn::Result<()> {
         let span = match tokens.next() {
-            None => return Ok(()),
+            None => return Err(syn::Error::new(span, "expected '=' to follow")),
             Some(TokenTree::Punct(p)) => {
                 if p.as_char() != '=' {
                     return Err(syn::Error::new(p.span(), "expected '=' to follow"))
-- 
2.43.0


From 661c06dd36175c26baed7806771783991d5965ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:05 +0000
Subject: [PATCH 15/22] fix: derive reports tokens after the debug parameter

---
 nommy-derive/src/attr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nommy-derive/src/attr.rs b/nommy-derive/src/attr.rs
index 01dce87..4b0cf42 100644
--- a/nommy-derive/src/attr.rs
+++ b/nommy-derive/src/attr.rs
@@ -118,7 +118,10 @@ impl GlobalAttr {
             "prefix" => self.prefix = Some(parse_type(ident.span(), tokens)?),
             "suffix" => self.suffix = Some(parse_type(ident.span(), tokens)?),
             "parse_type" => self.parse_type = Some(parse_type(ident.span(), tokens)?),
-            "debug" => self.debug = true,
+            "debug" => match tokens.next() {
+                Some(t) => return Err(syn::Error::new_spanned(t, "expected no more tokens")),
+                None => self.debug = true,
+            },
             _ => return Err(syn::Error::new_spanned(ident, "unknown parameter")),
         }
         Ok(())
-- 
2.43.0


From 3513a6e522c2272f5a6139583e7352e9d44325bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:05 +0000
Subject: [PATCH 16/22] fix: derive reports a parse_type on a variant, where it
 had no effect

---
 nommy-derive/src/attr.rs          | 10 ++++++++--
 nommy-derive/src/enum_impl/mod.rs |  6 +++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/nommy-derive/src/attr.rs b/nommy-derive/src/attr.rs
index 4b0cf42..892ebd5 100644
--- a/nommy-derive/src/attr.rs
+++ b/nommy-derive/src/attr.rs
@@ -56,10 +56,16 @@ fn split_args(mut span: Span, tokens: TokenStream) -> Vec<(Span, TokenStream)> {
 }
 
 impl GlobalAttr {
-    pub fn extend_with(mut self, extend: &Self) -> Self {
+    pub fn extend_with(mut self, extend: &Self) -> syn::Result<Self> {
+        if let Some(parse_type) = &self.parse_type {
+            return Err(syn::Error::new_spanned(
+                parse_type,
+                "parse_type applies to a whole type, not to a variant",
+            ));
+        }
         self.ignore.extend_from_slice(&extend.ignore);
         self.parse_type = extend.parse_type.clone();
-        self
+        Ok(self)
     }
 
     pub fn parse_attrs(attrs: Vec<syn::Attribute>) -> syn::Result<Self> {
diff --git a/nommy-derive/src/enum_impl/mod.rs b/nommy-derive/src/enum_impl/mod.rs
index a461759..b6d16ac 100644
--- a/nommy-derive/src/enum_impl/mod.rs
+++ b/nommy-derive/src/enum_impl/mod.rs
@@ -164,7 +164,7 @@ impl Enum {
             .map(|v| match v.fields {
                 syn::Fields::Named(named) => Ok(EnumVariant::Named(EnumVariantNamed {
                     name: v.ident,
-                    attrs: GlobalAttr::parse_attrs(v.attrs)?.extend_with(&attrs),
+                    attrs: GlobalAttr::parse_attrs(v.attrs)?.extend_with(&attrs)?,
                     fields: named
                         .named
                         .into_iter()
@@ -173,7 +173,7 @@ impl Enum {
                 })),
                 syn::Fields::Unnamed(unnamed) => Ok(EnumVariant::Unnamed(EnumVariantUnnamed {
                     name: v.ident,
-                    attrs: GlobalAttr::parse_attrs(v.attrs)?.extend_with(&attrs),
+                    attrs: GlobalAttr::parse_attrs(v.attrs)?.extend_with(&attrs)?,
                     fields: unnamed
                         .unnamed
                         .into_iter()
@@ -182,7 +182,7 @@ impl Enum {
                 })),
                 syn::Fields::Unit => Ok(EnumVariant::Unit(EnumVariantUnit {
                     name: v.ident,
-                    attrs: GlobalAttr::parse_attrs(v.attrs)?.extend_with(&attrs),
+                    attrs: GlobalAttr::parse_attrs(v.attrs)?.extend_with(&attrs)?,
                 })),
             })
             .collect::<syn::Result<_>>()?;
-- 
2.43.0


From 6a98424a719e3e92ad24a03e2009ee94e99e9f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:09 +0000
Subject: [PATCH 17/22] fix: derive reports seperated_by and trailing without
 inner_parser, where they had no effect

---
 nommy-derive/src/attr.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/nommy-derive/src/attr.rs b/nommy-derive/src/attr.rs
index 892ebd5..c0e5317 100644
--- a/nommy-derive/src/attr.rs
+++ b/nommy-derive/src/attr.rs
@@ -148,6 +148,8 @@ pub struct VecFieldAttr {
     pub parser: Option<syn::Type>,
     pub seperated_by: Option<syn::Type>,
     pub trailing: Option<bool>,
+    /// A parameter that means nothing without `inner_parser`
+    pub needs_parser: Option<(Span, &'static str)>,
 }
 
 impl VecFieldAttr {
@@ -164,6 +166,14 @@ impl FieldAttr {
                 output.parse_attr(attr.tokens)?;
             }
         }
+        if output.vec.parser.is_none() {
+            if let Some((span, name)) = output.vec.needs_parser {
+                return Err(syn::Error::new(
+                    span,
+                    format!("{} has no effect without inner_parser", name),
+                ));
+            }
+        }
         Ok(output)
     }
 
@@ -213,8 +223,14 @@ impl FieldAttr {
             "suffix" => self.suffix = Some(parse_type(ident.span(), tokens)?),
             "parser" => self.parser = Some(parse_type(ident.span(), tokens)?),
             "inner_parser" => self.vec.parser = Some(parse_type(ident.span(), tokens)?),
-            "seperated_by" => self.vec.seperated_by = Some(parse_type(ident.span(), tokens)?),
-            "trailing" => self.parse_trailing(ident.span(), tokens)?,
+            "seperated_by" => {
+                self.vec.needs_parser = Some((ident.span(), "seperated_by"));
+                self.vec.seperated_by = Some(parse_type(ident.span(), tokens)?)
+            }
+            "trailing" => {
+                self.vec.needs_parser = Some((ident.span(), "trailing"));
+                self.parse_trailing(ident.span(), tokens)?
+            }
             _ => return Err(syn::Error::new_spanned(ident, "unknown parameter")),
         }
         Ok(())
-- 
2.43.0


From 168267841ed21fe4920825c01b3e8f30dea8704a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 18/22] fix: derived code names Ok and Err in full, so that a
 type may be called Ok or Err

---
 nommy-derive/src/enum_impl/mod.rs       |  2 +-
 nommy-derive/src/enum_impl/named.rs     |  2 +-
 nommy-derive/src/enum_impl/unit.rs      |  2 +-
 nommy-derive/src/enum_impl/unnamed.rs   |  2 +-
 nommy-derive/src/fn_impl.rs             | 12 ++++++------
 nommy-derive/src/struct_impl/named.rs   |  2 +-
 nommy-derive/src/struct_impl/unit.rs    |  2 +-
 nommy-derive/src/struct_impl/unnamed.rs |  2 +-
 8 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/nommy-derive/src/enum_impl/mod.rs b/nommy-derive/src/enum_impl/mod.rs
index b6d16ac..2678ee8 100644
--- a/nommy-derive/src/enum_impl/mod.rs
+++ b/nommy-derive/src/enum_impl/mod.rs
@@ -134,7 +134,7 @@ impl ToTokens for Enum {
                     use ::std::convert::TryInto as _;
                     #parse_impl
 
-                    Ok(result)
+                    ::std::result::Result::Ok(result)
                 }
 
                 fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> bool {
diff --git a/nommy-derive/src/enum_impl/named.rs b/nommy-derive/src/enum_impl/named.rs
index 4417cc3..8b764b9 100644
--- a/nommy-derive/src/enum_impl/named.rs
+++ b/nommy-derive/src/enum_impl/named.rs
@@ -36,7 +36,7 @@ impl EnumVariantNamed {
         let enum_name = &enum_.name;
         let variant_name = &self.name;
         quote! {
-            Ok(#enum_name::#variant_name {#(
+            ::std::result::Result::Ok(#enum_name::#variant_name {#(
                 #names: #bindings,
             )*})
         }
diff --git a/nommy-derive/src/enum_impl/unit.rs b/nommy-derive/src/enum_impl/unit.rs
index 5d837d1..59a46b9 100644
--- a/nommy-derive/src/enum_impl/unit.rs
+++ b/nommy-derive/src/enum_impl/unit.rs
@@ -25,7 +25,7 @@ impl EnumVariantUnit {
         let enum_name = &enum_.name;
         let variant_name = &self.name;
         quote! {
-            Ok(#enum_name::#variant_name)
+            ::std::result::Result::Ok(#enum_name::#variant_name)
         }
     }
 }
diff --git a/nommy-derive/src/enum_impl/unnamed.rs b/nommy-derive/src/enum_impl/unnamed.rs
index fbe2f1c..fb97788 100644
--- a/nommy-derive/src/enum_impl/unnamed.rs
+++ b/nommy-derive/src/enum_impl/unnamed.rs
@@ -34,7 +34,7 @@ impl EnumVariantUnnamed {
         let enum_name = &enum_.name;
         let variant_name = &self.name;
         quote! {
-            Ok(#enum_name::#variant_name (#(
+            ::std::result::Result::Ok(#enum_name::#variant_name (#(
                 #bindings,
             )*))
         }
diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index 2d6d6b8..e23117d 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -134,7 +134,7 @@ impl<'a> Builder<'a> {
     }
     pub fn add_variant(&mut self, peek_name: &syn::Ident, parse_name: &syn::Ident) {
         self.parse_impl.extend(quote! {
-            if let (true, Ok(result)) = (cursor.reset_internal(), Self::#parse_name(&mut cursor)) {
+            if let (true, ::std::result::Result::Ok(result)) = (cursor.reset_internal(), Self::#parse_name(&mut cursor)) {
                 result
             } else
         });
@@ -144,7 +144,7 @@ impl<'a> Builder<'a> {
     }
     pub fn finish_variants(&mut self, error: String) {
         self.parse_impl.extend(quote! {
-            { return Err(::nommy::eyre::eyre!(#error)); };
+            { return ::std::result::Result::Err(::nommy::eyre::eyre!(#error)); };
             let pos = cursor.position();
             input.fast_forward(pos);
         });
@@ -222,7 +222,7 @@ impl<'a> Builder<'a> {
     fn parser_peek_tokens(&self, ty: &syn::Type, error: &str) -> TokenStream {
         let generic = &self.generic;
         quote! {
-            if !(<#ty as ::nommy::Parse<#generic>>::peek(input)) { return Err(::nommy::eyre::eyre!(#error)) }
+            if !(<#ty as ::nommy::Parse<#generic>>::peek(input)) { return ::std::result::Result::Err(::nommy::eyre::eyre!(#error)) }
         }
     }
     fn parser_parse_tokens(&self, name: &syn::Ident, ty: &syn::Type, error: &str) -> TokenStream {
@@ -285,7 +285,7 @@ impl<'a> Builder<'a> {
         quote! {
             let #name = #parse_vec?;
             if #name.len() < #min {
-                return Err(::nommy::eyre::eyre!("could not parse enough for vec"));
+                return ::std::result::Result::Err(::nommy::eyre::eyre!("could not parse enough for vec"));
             }
         }
     }
@@ -295,8 +295,8 @@ impl<'a> Builder<'a> {
 
         quote! {
             let elems: #ty = match #parse_vec {
-                Ok(elems) => elems,
-                Err(_) => return false,
+                ::std::result::Result::Ok(elems) => elems,
+                ::std::result::Result::Err(_) => return false,
             };
             if elems.len() < #min {
                 return false;
diff --git a/nommy-derive/src/struct_impl/named.rs b/nommy-derive/src/struct_impl/named.rs
index 5a33945..b35840e 100644
--- a/nommy-derive/src/struct_impl/named.rs
+++ b/nommy-derive/src/struct_impl/named.rs
@@ -61,7 +61,7 @@ impl ToTokens for Named {
                     use ::std::convert::TryInto as _;
                     #parse_impl
 
-                    Ok(#name {#(
+                    ::std::result::Result::Ok(#name {#(
                         #names: #bindings,
                     )*})
                 }
diff --git a/nommy-derive/src/struct_impl/unit.rs b/nommy-derive/src/struct_impl/unit.rs
index fb7c2ee..5ef484c 100644
--- a/nommy-derive/src/struct_impl/unit.rs
+++ b/nommy-derive/src/struct_impl/unit.rs
@@ -54,7 +54,7 @@ impl ToTokens for Unit {
                     use ::nommy::eyre::WrapErr as _;
                     use ::std::convert::TryInto as _;
                     #parse_impl
-                    Ok(#name)
+                    ::std::result::Result::Ok(#name)
                 }
 
                 fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> bool {
diff --git a/nommy-derive/src/struct_impl/unnamed.rs b/nommy-derive/src/struct_impl/unnamed.rs
index a16443a..3429ad6 100644
--- a/nommy-derive/src/struct_impl/unnamed.rs
+++ b/nommy-derive/src/struct_impl/unnamed.rs
@@ -60,7 +60,7 @@ impl ToTokens for Unnamed {
                     use ::std::convert::TryInto as _;
                     #parse_impl
 
-                    Ok(#name (#(
+                    ::std::result::Result::Ok(#name (#(
                         #bindings,
                     )*))
                 }
-- 
2.43.0


From dfb74e2ae2145784726021e91217d899ac6ee96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 19/22] fix: derive reports nommy attributes on generic
 parameters, where they had no effect

---
 nommy-derive/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/nommy-derive/src/lib.rs b/nommy-derive/src/lib.rs
index 72061fa..b3d3f71 100644
--- a/nommy-derive/src/lib.rs
+++ b/nommy-derive/src/lib.rs
@@ -21,6 +21,19 @@ pub fn derive_parse(input: TokenStream) -> TokenStream {
         data,
     } = input;
 
+    for param in &generics.params {
+        let attrs = match param {
+            syn::GenericParam::Type(param) => &param.attrs,
+            syn::GenericParam::Lifetime(param) => &param.attrs,
+            syn::GenericParam::Const(param) => &param.attrs,
+        };
+        if let Some(attr) = attrs.iter().find(|attr| attr.path.is_ident("nommy")) {
+            return syn::Error::new_spanned(attr, "nommy attributes do not apply to generic parameters")
+                .into_compile_error()
+                .into();
+        }
+    }
+
     match data {
         syn::Data::Struct(s) => match s.fields {
             syn::Fields::Named(fields) => {
-- 
2.43.0


From dc737a71adcd8c17e9edfa749668918dcdbca9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 20/22] fix: derived code names bool and usize in full, so that
 a type may be called so

---
 nommy-derive/src/enum_impl/mod.rs       | 6 +++---
 nommy-derive/src/fn_impl.rs             | 4 ++--
 nommy-derive/src/struct_impl/named.rs   | 2 +-
 nommy-derive/src/struct_impl/unit.rs    | 2 +-
 nommy-derive/src/struct_impl/unnamed.rs | 2 +-
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/nommy-derive/src/enum_impl/mod.rs b/nommy-derive/src/enum_impl/mod.rs
index 2678ee8..0e96b3c 100644
--- a/nommy-derive/src/enum_impl/mod.rs
+++ b/nommy-derive/src/enum_impl/mod.rs
@@ -71,7 +71,7 @@ impl ToTokens for Enum {
             let (peek_fn, parse_fn) = match attrs.parse_type {
                 Some(_) => (
                     quote!{
-                        fn #peek_name(input: &mut impl ::nommy::Buffer<#generic>) -> bool
+                        fn #peek_name(input: &mut impl ::nommy::Buffer<#generic>) -> ::std::primitive::bool
                     },
                     quote!{
                         fn #parse_name(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self>
@@ -79,7 +79,7 @@ impl ToTokens for Enum {
                 ),
                 None => (
                     quote!{
-                        fn #peek_name<#generic>(input: &mut impl ::nommy::Buffer<#generic>) -> bool where #wc
+                        fn #peek_name<#generic>(input: &mut impl ::nommy::Buffer<#generic>) -> ::std::primitive::bool where #wc
                     },
                     quote!{
                         fn #parse_name<#generic>(input: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> where #wc
@@ -137,7 +137,7 @@ impl ToTokens for Enum {
                     ::std::result::Result::Ok(result)
                 }
 
-                fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> bool {
+                fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> ::std::primitive::bool {
                     #peek_impl
 
                     true
diff --git a/nommy-derive/src/fn_impl.rs b/nommy-derive/src/fn_impl.rs
index e23117d..3130c77 100644
--- a/nommy-derive/src/fn_impl.rs
+++ b/nommy-derive/src/fn_impl.rs
@@ -253,7 +253,7 @@ impl<'a> Builder<'a> {
                 };
                 let max = match &attrs.max {
                     Some(max) => quote! { #max },
-                    None => quote! { usize::MAX },
+                    None => quote! { ::std::primitive::usize::MAX },
                 };
                 (min, max)
             }
@@ -343,7 +343,7 @@ impl<'a> Builder<'a> {
                 fn parse(_: &mut impl ::nommy::Buffer<#generic>) -> ::nommy::eyre::Result<Self> {
                     unimplemented!()
                 }
-                fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> bool {
+                fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> ::std::primitive::bool {
                     #ignore_impl
 
                     false
diff --git a/nommy-derive/src/struct_impl/named.rs b/nommy-derive/src/struct_impl/named.rs
index b35840e..322644c 100644
--- a/nommy-derive/src/struct_impl/named.rs
+++ b/nommy-derive/src/struct_impl/named.rs
@@ -66,7 +66,7 @@ impl ToTokens for Named {
                     )*})
                 }
 
-                fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> bool {
+                fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> ::std::primitive::bool {
                     #peek_impl
                     true
                 }
diff --git a/nommy-derive/src/struct_impl/unit.rs b/nommy-derive/src/struct_impl/unit.rs
index 5ef484c..072d186 100644
--- a/nommy-derive/src/struct_impl/unit.rs
+++ b/nommy-derive/src/struct_impl/unit.rs
@@ -57,7 +57,7 @@ impl ToTokens for Unit {
                     ::std::result::Result::Ok(#name)
                 }
 
-                fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> bool {
+                fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> ::std::primitive::bool {
                     #peek_impl
                     true
                 }
diff --git a/nommy-derive/src/struct_impl/unnamed.rs b/nommy-derive/src/struct_impl/unnamed.rs
index 3429ad6..44c57b4 100644
--- a/nommy-derive/src/struct_impl/unnamed.rs
+++ b/nommy-derive/src/struct_impl/unnamed.rs
@@ -65,7 +65,7 @@ impl ToTokens for Unnamed {
                     )*))
                 }
 
-                fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> bool {
+                fn peek(input: &mut impl ::nommy::Buffer<#generic>) -> ::std::primitive::bool {
                     #peek_impl
                     true
                 }
-- 
2.43.0


From 2b03c11876cfb5be0d88d850db1cb99d3e9039f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:39 +0000
Subject: [PATCH 21/22] fix: derive works for untyped recursive types that name
 themselves by `Self` or with arguments

The where clause required a parser of the type itself, which overflows: only
a plain name was taken for a reference to the type.
---
 nommy-derive/src/ty.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nommy-derive/src/ty.rs b/nommy-derive/src/ty.rs
index f3f762a..e6d8314 100644
--- a/nommy-derive/src/ty.rs
+++ b/nommy-derive/src/ty.rs
@@ -4,7 +4,8 @@ pub fn contains(ty: &syn::Type, type_name: &syn::Ident) -> bool {
         syn::Type::Group(ty) => contains(&ty.elem, type_name),
         syn::Type::Paren(ty) => contains(&ty.elem, type_name),
         syn::Type::Path(path) => match path.path.get_ident() {
-            Some(ident) => *ident == *type_name,
+            Some(ident) => *ident == *type_name || ident == "Self",
+            None if path.path.segments.len() == 1 && path.path.segments[0].ident == *type_name => true,
             None => {
                 for segment in &path.path.segments {
                     match &segment.arguments {
-- 
2.43.0


From 04e799037928f1edabae84c5936d56332b367488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:32 +0000
Subject: [PATCH 22/22] fix: derive works for untyped recursive enums

The functions of a variant that refers to the enum need the parsers of the
other variants, but required only those of their own.
---
 nommy-derive/src/enum_impl/mod.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/nommy-derive/src/enum_impl/mod.rs b/nommy-derive/src/enum_impl/mod.rs
index 0e96b3c..0d6e8c7 100644
--- a/nommy-derive/src/enum_impl/mod.rs
+++ b/nommy-derive/src/enum_impl/mod.rs
@@ -50,6 +50,7 @@ impl ToTokens for Enum {
         outer_builder.add_fix(&attrs.prefix, "prefix", format!("enum `{}`", name));
         outer_builder.start_variants();
 
+        let mut variants = Vec::new();
         for (i, v) in vars.iter().enumerate() {
             let BuildOutput {
                 peek_impl,
@@ -57,7 +58,7 @@ impl ToTokens for Enum {
                 wc,
             } = map_vars! {v => |n| n.fn_impl(&self).build(&name)};
 
-            outer_builder.add_where_raw(wc.clone());
+            outer_builder.add_where_raw(wc);
 
             let var_name = map_vars!(v => |n| n.name.unraw().to_string().to_lowercase());
             let parse_name = format_ident!("__parse_{}_{}", i, var_name);
@@ -65,9 +66,21 @@ impl ToTokens for Enum {
             let parse_result = map_vars!(v => |n| n.result(&self));
 
             outer_builder.add_variant(&peek_name, &parse_name);
+            variants.push((peek_name, peek_impl, parse_name, parse_impl, parse_result));
+        }
 
+        outer_builder.finish_variants(format!("no variants of {} could be parsed", name));
 
+        outer_builder.add_fix(&attrs.suffix, "suffix", format!("enum `{}`", name));
+
+        let BuildOutput {
+            peek_impl,
+            parse_impl,
+            wc,
+        } = outer_builder.build();
 
+        // a variant that refers to the enum needs whatever the others need
+        for (peek_name, variant_peek, parse_name, variant_parse, parse_result) in variants {
             let (peek_fn, parse_fn) = match attrs.parse_type {
                 Some(_) => (
                     quote!{
@@ -94,12 +107,12 @@ impl ToTokens for Enum {
                     #parse_fn {
                         use ::nommy::eyre::WrapErr as _;
                         use ::std::convert::TryInto as _;
-                        #parse_impl
+                        #variant_parse
                         #parse_result
                     }
 
                     #peek_fn {
-                        #peek_impl
+                        #variant_peek
 
                         true
                     }
@@ -107,16 +120,6 @@ impl ToTokens for Enum {
             })
         }
 
-        outer_builder.finish_variants(format!("no variants of {} could be parsed", name));
-
-        outer_builder.add_fix(&attrs.suffix, "suffix", format!("enum `{}`", name));
-
-        let BuildOutput {
-            peek_impl,
-            parse_impl,
-            wc,
-        } = outer_builder.build();
-
         let impl_line = match attrs.parse_type {
             Some(_) => quote!{
                 impl<#(#args),*> ::nommy::Parse<#generic> for #name<#(#args),*>
-- 
2.43.0

