From 88ef82975d909c1c8ec45569363df72bfc4492d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:06 +0000
Subject: [PATCH 01/17] fix: allow `!` inside bare identifiers

Only code points up to 0x20 are excluded by the KDL specification, and
the first character of an identifier could already be `!`.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 46055cf..7a946c0 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -72,7 +72,7 @@ fn ws_char<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
 
 fn id_char<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
     filter(|c| !matches!(c,
-        '\u{0000}'..='\u{0021}' |
+        '\u{0000}'..='\u{0020}' |
         '\\'|'/'|'('|')'|'{'|'}'|'<'|'>'|';'|'['|']'|'='|','|'"' |
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
-- 
2.43.0


From 4173027dbdc3327886337baf5656230eb5f22efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:12 +0000
Subject: [PATCH 02/17] fix: do not treat the byte order mark as an identifier
 character

It is whitespace (`ws_char()` accepts it), so it ends an identifier like
any other whitespace does.
---
 src/grammar.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 7a946c0..4a5f0f6 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -77,7 +77,7 @@ fn id_char<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
@@ -92,7 +92,7 @@ fn id_sans_dig<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
@@ -107,7 +107,7 @@ fn id_sans_sign_dig<S: Span>() -> impl Parser<char, char, Error=Error<S>> {
         // whitespace, excluding 0x20
         '\u{00a0}' | '\u{1680}' |
         '\u{2000}'..='\u{200A}' |
-        '\u{202F}' | '\u{205F}' | '\u{3000}' |
+        '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{FEFF}' |
         // newline (excluding <= 0x20)
         '\u{0085}' | '\u{2028}' | '\u{2029}'
     ))
-- 
2.43.0


From f4ec6e37228fbd8f3c55740e84f2fadda8083d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:24 +0000
Subject: [PATCH 03/17] fix: accept raw strings as node names and type names

`r"name"` was parsed as the bare identifier `r` followed by garbage.
---
 src/grammar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 4a5f0f6..62a5184 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -295,8 +295,9 @@ fn ident<S: Span>() -> impl Parser<char, Box<str>, Error=Error<S>> {
     choice((
         // match -123 so `-` will not be treated as an ident by backtracking
         number().map(Err),
-        bare_ident().map(Ok),
+        // raw strings start with `r`, so try strings before bare identifiers
         string().map(Ok),
+        bare_ident().map(Ok),
     ))
     // when backtracking is not already possible,
     // throw error for numbers (mapped to `Result::Err`)
-- 
2.43.0


From b57f3a7f204ae6004689f2b0d022445a07f09c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:37 +0000
Subject: [PATCH 04/17] fix: allow property names that start with a keyword

`node nullable=1` was parsed as the argument `null` followed by garbage.
---
 src/grammar.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grammar.rs b/src/grammar.rs
index 62a5184..73401c2 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -321,6 +321,8 @@ fn keyword<S: Span>() -> impl Parser<char, Literal, Error=Error<S>> {
             .map_err(|e: Error<S>| e.with_expected_token("false"))
             .to(Literal::Bool(false)),
     ))
+    // `nullable` or `true-color` is an identifier rather than a keyword
+    .then_ignore(id_char().not().ignored().or(end()).rewind())
 }
 
 fn digit<S: Span>(radix: u32) -> impl Parser<char, char, Error=Error<S>> {
-- 
2.43.0


From 876670b9df9465057b5f952c6853546e661c8880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:49 +0000
Subject: [PATCH 05/17] fix: require at least one digit in the exponent

`1e`, `1e+` and `1e_` are not numbers according to the KDL
specification, and could not be converted to a float anyway.
---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index 73401c2..d393382 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -340,7 +340,7 @@ fn decimal_number<S: Span>() -> impl Parser<char, Literal, Error=Error<S>> {
         just('.').chain_c(digit(10)).chain_c(digits(10)).or_not().flatten())
     .chain_c(just('e').or(just('E'))
            .chain_c(just('-').or(just('+')).or_not())
-           .chain_c(digits(10)).or_not().flatten())
+           .chain_c(digit(10)).chain_c(digits(10)).or_not().flatten())
     .map(|v| {
         let is_decimal = v.iter().any(|c| matches!(c, '.'|'e'|'E'));
         let s: String = v.into_iter().filter(|c| c != &'_').collect();
-- 
2.43.0


From e927b1def19af0e379aa1efeec868511fab1b7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:40 +0000
Subject: [PATCH 06/17] fix: report an empty unclosed comment at the end of
 input as unclosed

---
 src/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.rs b/src/grammar.rs
index d393382..92fc659 100644
--- a/src/grammar.rs
+++ b/src/grammar.rs
@@ -135,7 +135,7 @@ fn ml_comment<S: Span>() -> impl Parser<char, (), Error=Error<S>> {
     })
     .map_err_with_span(|e, span| {
         if matches!(&e, Error::Unexpected { found: TokenFormat::Eoi, .. }) &&
-           span.length() > 2
+           span.length() >= 2
         {
             e.merge(Error::Unclosed {
                 label: "comment",
-- 
2.43.0


From 1f07f8bdf46c3880d798712f0d04316f6574ba19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:11 +0000
Subject: [PATCH 07/17] fix: let a newtype around a non-optional node be
 derived

The documented `struct Wrapper(Inner)` form did not compile: the generated
code always wrapped the inner value in Some/None.
---
 derive/src/node.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 5a3d381..760ca1c 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -157,6 +157,24 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
     let s_name = &s.ident;
     let node = syn::Ident::new("node", Span::mixed_site());
     let ctx = syn::Ident::new("ctx", Span::mixed_site());
+    let decode = if s.option {
+        quote! {
+            if #node.arguments.len() > 0 ||
+                #node.properties.len() > 0 ||
+                #node.children.is_some()
+            {
+                ::knuffel::Decode::decode_node(#node, #ctx)
+                    .map(Some)
+                    .map(#s_name)
+            } else {
+                Ok(#s_name(None))
+            }
+        }
+    } else {
+        quote! {
+            ::knuffel::Decode::decode_node(#node, #ctx).map(#s_name)
+        }
+    };
     Ok(quote! {
         impl<S: ::knuffel::traits::ErrorSpan>
             ::knuffel::Decode<S> for #s_name
@@ -165,16 +183,7 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
                            #ctx: &mut ::knuffel::decode::Context<S>)
                 -> Result<Self, ::knuffel::errors::DecodeError<S>>
             {
-                if #node.arguments.len() > 0 ||
-                    #node.properties.len() > 0 ||
-                    #node.children.is_some()
-                {
-                    ::knuffel::Decode::decode_node(#node, #ctx)
-                        .map(Some)
-                        .map(#s_name)
-                } else {
-                    Ok(#s_name(None))
-                }
+                #decode
             }
         }
     })
-- 
2.43.0


From 00c45782bae767313c9a3f730f0c348a28df5ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:11 +0000
Subject: [PATCH 08/17] fix: name the expected kind in errors about numeric
 scalars

A scalar of a wrong kind for an integer or float field was reported as
"expected string scalar".
---
 src/convert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 18bc0e4..09b3703 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -41,7 +41,7 @@ macro_rules! impl_integer {
                     }
                     _ => {
                         ctx.emit_error(DecodeError::scalar_kind(
-                                Kind::String, val));
+                                Kind::Int, val));
                         Ok(0)
                     }
                 }
@@ -102,7 +102,7 @@ macro_rules! impl_float {
                     }
                     _ => {
                         ctx.emit_error(DecodeError::scalar_kind(
-                                Kind::String, val));
+                                Kind::Decimal, val));
                         Ok(0.0)
                     }
                 }
-- 
2.43.0


From 62bedc923188d378155f00b130d56fb9a4cc5b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:49 +0000
Subject: [PATCH 09/17] fix: recognise usize and isize type annotations

---
 src/ast.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ast.rs b/src/ast.rs
index 48c446a..62ad58e 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -256,6 +256,8 @@ impl FromStr for BuiltinType {
             "i32" => Ok(I32),
             "u64" => Ok(U64),
             "i64" => Ok(I64),
+            "usize" => Ok(Usize),
+            "isize" => Ok(Isize),
             "f32" => Ok(F32),
             "f64" => Ok(F64),
             "base64" => Ok(Base64),
-- 
2.43.0


From d8c49c9de44705e003ca03b10df5326027137dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:06 +0000
Subject: [PATCH 10/17] fix: reject type names on flag nodes, enum variants and
 unwrapped nodes

---
 derive/src/node.rs     | 7 ++++++-
 derive/src/variants.rs | 9 ++++++++-
 src/decode.rs          | 5 +++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 760ca1c..825f29a 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -159,7 +159,8 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
     let ctx = syn::Ident::new("ctx", Span::mixed_site());
     let decode = if s.option {
         quote! {
-            if #node.arguments.len() > 0 ||
+            if #node.type_name.is_some() ||
+                #node.arguments.len() > 0 ||
                 #node.properties.len() > 0 ||
                 #node.children.is_some()
             {
@@ -194,6 +195,7 @@ pub(crate) fn decode_enum_item(s: &Common,
     -> syn::Result<TokenStream>
 {
     let children = syn::Ident::new("children", Span::mixed_site());
+    let decode_specials = decode_specials(s, node)?;
     let decode_args = decode_args(s, node)?;
     let decode_props = decode_props(s, node)?;
     let decode_children = decode_children(s, &children,
@@ -216,6 +218,7 @@ pub(crate) fn decode_enum_item(s: &Common,
         quote!{ #s_name(#(#assignments),*) }
     };
     Ok(quote! {
+        #decode_specials
         #decode_args
         #decode_props
         let #children = #node.children.as_ref()
@@ -596,6 +599,7 @@ fn unwrap_fn(parent: &Common,
 
     let node = syn::Ident::new("node", Span::mixed_site());
     let children = syn::Ident::new("children", Span::mixed_site());
+    let decode_specials = decode_specials(&common, &node)?;
     let decode_args = decode_args(&common, &node)?;
     let decode_props = decode_props(&common, &node)?;
     let decode_children = decode_children(&common, &children,
@@ -604,6 +608,7 @@ fn unwrap_fn(parent: &Common,
         let mut #func = |#node: &::knuffel::ast::SpannedNode<#span_ty>,
                          #ctx: &mut ::knuffel::decode::Context<#span_ty>|
         {
+            #decode_specials
             #decode_args
             #decode_props
             let #children = #node.children.as_ref()
diff --git a/derive/src/variants.rs b/derive/src/variants.rs
index 7b9e3b4..9ed277b 100644
--- a/derive/src/variants.rs
+++ b/derive/src/variants.rs
@@ -66,6 +66,12 @@ fn decode(e: &Common, node: &syn::Ident) -> syn::Result<TokenStream> {
             VariantKind::Unit => {
                 branches.push(quote! {
                     #name => {
+                        if let Some(type_name) = &#node.type_name {
+                            #ctx.emit_error(
+                                ::knuffel::errors::DecodeError::unexpected(
+                                    type_name, "type name",
+                                    "no type name expected for this node"));
+                        }
                         for arg in &#node.arguments {
                             #ctx.emit_error(
                                 ::knuffel::errors::DecodeError::unexpected(
@@ -102,7 +108,8 @@ fn decode(e: &Common, node: &syn::Ident) -> syn::Result<TokenStream> {
             VariantKind::Nested { option: true } => {
                 branches.push(quote! {
                     #name => {
-                        if #node.arguments.len() > 0 ||
+                        if #node.type_name.is_some() ||
+                            #node.arguments.len() > 0 ||
                             #node.properties.len() > 0 ||
                             #node.children.is_some()
                         {
diff --git a/src/decode.rs b/src/decode.rs
index 72193f1..242191f 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -108,6 +108,11 @@ pub fn bytes<S: ErrorSpan>(value: &Value<S>, ctx: &mut Context<S>) -> Vec<u8> {
 pub fn check_flag_node<S: ErrorSpan>(
     node: &SpannedNode<S>, ctx: &mut Context<S>)
 {
+    if let Some(type_name) = &node.type_name {
+        ctx.emit_error(DecodeError::unexpected(
+                type_name, "type name",
+                "no type name expected for this node"));
+    }
     for arg in &node.arguments {
         ctx.emit_error(DecodeError::unexpected(
                 &arg.literal, "argument",
-- 
2.43.0


From 1ee38fb3ca0e86e32d1e4d6979bc131656557a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:40 +0000
Subject: [PATCH 11/17] fix: check the type name of a null in an optional bytes
 field

---
 derive/src/node.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 825f29a..9f76467 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -297,6 +297,19 @@ fn decode_value(val: &syn::Ident, ctx: &syn::Ident, mode: &DecodeMode,
         DecodeMode::Bytes if optional => {
             Ok(quote! {
                 if matches!(&*#val.literal, ::knuffel::ast::Literal::Null) {
+                    if let Some(typ) = &#val.type_name {
+                        let expected = ::knuffel::ast::BuiltinType::Base64;
+                        if typ.as_builtin() != Some(&expected) {
+                            #ctx.emit_error(
+                                ::knuffel::errors::DecodeError::TypeName {
+                                    span: typ.span().clone(),
+                                    found: Some((**typ).clone()),
+                                    expected: ::knuffel::errors::ExpectedType
+                                        ::optional(expected),
+                                    rust_type: "bytes",
+                                });
+                        }
+                    }
                     Ok(None)
                 } else {
                     match ::knuffel::decode::bytes(#val, #ctx).try_into() {
-- 
2.43.0


From a7ab61197335fce7e28b1f42ef942a056a430bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:39 +0000
Subject: [PATCH 12/17] fix: decode AST values inside Option, Box, Arc, Rc and
 Spanned instead of panicking

---
 src/containers.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/containers.rs b/src/containers.rs
index a09b023..263c78c 100644
--- a/src/containers.rs
+++ b/src/containers.rs
@@ -50,6 +50,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Box<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Box::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Box::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> Decode<S> for Arc<T> {
@@ -96,6 +101,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Arc<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Arc::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Arc::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> Decode<S> for Rc<T> {
@@ -142,6 +152,11 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Rc<T> {
     {
         DecodeScalar::raw_decode(value, ctx).map(Rc::new)
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        DecodeScalar::decode(value, ctx).map(Rc::new)
+    }
 }
 
 impl<S: ErrorSpan, T: Decode<S>> DecodeChildren<S> for Vec<T> {
@@ -172,6 +187,17 @@ impl<S: ErrorSpan, T: DecodeScalar<S>> DecodeScalar<S> for Option<T> {
             _ => DecodeScalar::raw_decode(value, ctx).map(Some),
         }
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        match &*value.literal {
+            Literal::Null => {
+                T::type_check(&value.type_name, ctx);
+                Ok(None)
+            }
+            _ => DecodeScalar::decode(value, ctx).map(Some),
+        }
+    }
 }
 
 impl<T: DecodeScalar<S>, S, Q> DecodeScalar<S> for Spanned<T, Q>
@@ -192,4 +218,13 @@ impl<T: DecodeScalar<S>, S, Q> DecodeScalar<S> for Spanned<T, Q>
             value: decoded,
         })
     }
+    fn decode(value: &Value<S>, ctx: &mut Context<S>)
+        -> Result<Self, DecodeError<S>>
+    {
+        let decoded = T::decode(value, ctx)?;
+        Ok(Spanned {
+            span: DecodeSpan::decode_span(&value.literal.span, ctx),
+            value: decoded,
+        })
+    }
 }
-- 
2.43.0


From 57f5c35747dff4eddd63c4b3b6d61353ec21b457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:45 +0000
Subject: [PATCH 13/17] fix: allow structs with nothing but optional children
 lists

---
 derive/src/node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 9f76467..bec9448 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -15,7 +15,11 @@ pub(crate) struct Common<'a> {
 fn child_can_partial(child: &Child) -> bool {
     use ChildMode::*;
 
-    child.option || matches!(child.mode, Bool | Flatten)
+    match child.mode {
+        Bool | Flatten => true,
+        Normal => child.option,
+        Multi => false,
+    }
 }
 
 pub fn emit_struct(s: &Struct, named: bool) -> syn::Result<TokenStream> {
-- 
2.43.0


From d5f2d52f9a864cecb8537496d0666e494d52a1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:45 +0000
Subject: [PATCH 14/17] fix: allow flatten(child, property) on a single field

---
 derive/src/definition.rs | 8 +++++++-
 derive/src/node.rs       | 9 ++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/derive/src/definition.rs b/derive/src/definition.rs
index 2f2d221..f7c8be2 100644
--- a/derive/src/definition.rs
+++ b/derive/src/definition.rs
@@ -603,6 +603,11 @@ impl Struct {
 
         Ok(bld.build())
     }
+    /// Whether the field is filled by `flatten(property)`
+    pub fn is_flat_prop(&self, tmp_name: &syn::Ident) -> bool {
+        self.properties.iter()
+            .any(|p| p.flatten && p.field.tmp_name == *tmp_name)
+    }
     pub fn all_fields(&self) -> Vec<&Field> {
         let mut res = Vec::new();
         res.extend(self.spans.iter().map(|a| &a.field));
@@ -612,7 +617,8 @@ impl Struct {
         res.extend(self.var_args.iter().map(|a| &a.field));
         res.extend(self.properties.iter().map(|p| &p.field));
         res.extend(self.var_props.iter().map(|p| &p.field));
-        res.extend(self.children.iter().map(|c| &c.field));
+        res.extend(self.children.iter().map(|c| &c.field)
+            .filter(|f| !self.is_flat_prop(&f.tmp_name)));
         res.extend(self.var_children.iter().map(|c| &c.field));
         res.extend(self.extra_fields.iter().map(|f| &f.field));
         return res;
diff --git a/derive/src/node.rs b/derive/src/node.rs
index bec9448..19735ae 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -796,9 +796,12 @@ fn decode_children(s: &Common, children: &syn::Ident,
         let child_name = &child_def.name;
         match child_def.mode {
             ChildMode::Flatten => {
-                declare_empty.push(quote! {
-                    let mut #fld = ::std::default::Default::default();
-                });
+                // `flatten(child, property)` field is declared by properties
+                if err_span.is_none() || !s.object.is_flat_prop(fld) {
+                    declare_empty.push(quote! {
+                        let mut #fld = ::std::default::Default::default();
+                    });
+                }
                 match_branches.push(quote! {
                     _ if (
                         match ::knuffel::traits::DecodePartial
-- 
2.43.0


From d3393fa81abcf4af2f33fb62e87c24ab296c1c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:45 +0000
Subject: [PATCH 15/17] fix: allow optional properties in tuple structs

---
 derive/src/definition.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/definition.rs b/derive/src/definition.rs
index f7c8be2..23af613 100644
--- a/derive/src/definition.rs
+++ b/derive/src/definition.rs
@@ -954,7 +954,10 @@ impl Field {
     }
     pub fn from_self(&self) -> TokenStream {
         match &self.attr {
-            AttrAccess::Indexed(idx) => quote!(self.#idx),
+            AttrAccess::Indexed(idx) => {
+                let idx = syn::Index::from(*idx);
+                quote!(self.#idx)
+            }
             AttrAccess::Named(name) => quote!(self.#name),
         }
     }
-- 
2.43.0


From e2a0dc9e0de5dc36961ed73140f2cd830f323fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:45 +0000
Subject: [PATCH 16/17] fix: allow default on optional child nodes

---
 derive/src/node.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index 19735ae..a2dd05e 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -886,9 +886,15 @@ fn decode_children(s: &Common, children: &syn::Ident,
                     } else {
                         quote!(::std::default::Default::default())
                     };
-                    postprocess.push(quote! {
-                        let #fld = #fld.unwrap_or_else(|| #default);
-                    });
+                    if child_def.option && child_def.unwrap.is_none() {
+                        postprocess.push(quote! {
+                            let #fld = #fld.or_else(|| #default);
+                        });
+                    } else {
+                        postprocess.push(quote! {
+                            let #fld = #fld.unwrap_or_else(|| #default);
+                        });
+                    }
                 } else if !child_def.option {
                     if let Some(span) = &err_span {
                         postprocess.push(quote! {
-- 
2.43.0


From 85fdf09c5848670293eea08d600394654b592a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:45 +0000
Subject: [PATCH 17/17] fix: respect span_type and generics of newtypes

---
 derive/src/node.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/derive/src/node.rs b/derive/src/node.rs
index a2dd05e..deaafbc 100644
--- a/derive/src/node.rs
+++ b/derive/src/node.rs
@@ -161,6 +161,25 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
     let s_name = &s.ident;
     let node = syn::Ident::new("node", Span::mixed_site());
     let ctx = syn::Ident::new("ctx", Span::mixed_site());
+
+    let (_, type_gen, _) = s.generics.split_for_impl();
+    let mut common_generics = s.generics.clone();
+    let span_ty;
+    if let Some(ty) = s.trait_props.span_type.as_ref() {
+        span_ty = quote!(#ty);
+    } else {
+        if common_generics.params.is_empty() {
+            common_generics.lt_token = Some(Default::default());
+            common_generics.gt_token = Some(Default::default());
+        }
+        common_generics.params.push(syn::parse2(quote!(S)).unwrap());
+        span_ty = quote!(S);
+        common_generics.make_where_clause().predicates.push(
+            syn::parse2(quote!(S: ::knuffel::traits::ErrorSpan)).unwrap());
+    };
+    let trait_gen = quote!(<#span_ty>);
+    let (impl_gen, _, bounds) = common_generics.split_for_impl();
+
     let decode = if s.option {
         quote! {
             if #node.type_name.is_some() ||
@@ -181,12 +200,12 @@ pub fn emit_new_type(s: &NewType) -> syn::Result<TokenStream> {
         }
     };
     Ok(quote! {
-        impl<S: ::knuffel::traits::ErrorSpan>
-            ::knuffel::Decode<S> for #s_name
+        impl #impl_gen ::knuffel::Decode #trait_gen for #s_name #type_gen
+            #bounds
         {
-            fn decode_node(#node: &::knuffel::ast::SpannedNode<S>,
-                           #ctx: &mut ::knuffel::decode::Context<S>)
-                -> Result<Self, ::knuffel::errors::DecodeError<S>>
+            fn decode_node(#node: &::knuffel::ast::SpannedNode<#span_ty>,
+                           #ctx: &mut ::knuffel::decode::Context<#span_ty>)
+                -> Result<Self, ::knuffel::errors::DecodeError<#span_ty>>
             {
                 #decode
             }
-- 
2.43.0

