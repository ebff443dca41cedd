From 61bd08b6bc1f8ba316a701ce24ed68e852ba9336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:10 +0000
Subject: [PATCH 01/19] fix: consume the mut keyword of static mut items

---
 src/parse_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 45af19e..d1a4aff 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -30,7 +30,9 @@ pub(crate) fn parse_const_or_static(
     let tk_mut = match tokens.peek() {
         Some(TokenTree::Ident(ident)) if ident == "mut" => {
             assert!(!is_const, "`const mut` is not a valid declaration");
-            Some(ident.clone())
+            let tk_mut = ident.clone();
+            tokens.next(); // consume 'mut'
+            Some(tk_mut)
         }
         _ => None,
     };
-- 
2.43.0


From 1701fc85603e5a191f0a50813c3055cee05dd358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:33 +0000
Subject: [PATCH 02/19] fix: accept comparison and shift operators in const and
 static initializers

---
 src/parse_impl.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index d1a4aff..1b7244a 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -48,11 +48,15 @@ pub(crate) fn parse_const_or_static(
 
     let tk_equals = consume_punct(tokens, '=');
 
-    let value_tokens = consume_stuff_until(
-        tokens,
-        |tt| matches!(tt, TokenTree::Punct(punct) if punct.as_char() == ';'),
-        true,
-    );
+    // The initializer is an expression: `<` and `>` are operators in there.
+    let mut value_tokens = Vec::new();
+    loop {
+        match tokens.peek() {
+            None => break,
+            Some(TokenTree::Punct(punct)) if punct.as_char() == ';' => break,
+            Some(_) => value_tokens.push(tokens.next().unwrap()),
+        }
+    }
     let initializer = if value_tokens.is_empty() {
         None
     } else {
-- 
2.43.0


From 52616448d37880d60fe30537308725047d9d75d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:57 +0000
Subject: [PATCH 03/19] fix: parse self parameters with a type, as documented

---
 src/parse_fn.rs | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 83a94b7..beb2271 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -84,27 +84,35 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
         let tk_mut = consume_ident(&mut tokens, "mut");
         let tk_self = consume_ident(&mut tokens, "self");
 
-        let param = if let Some(tk_self) = tk_self {
-            FnParam::Receiver(FnReceiverParam {
+        // `self: Type` is a typed parameter
+        let has_type = matches!(
+            tokens.peek(),
+            Some(TokenTree::Punct(punct)) if punct.as_char() == ':'
+        );
+
+        let param = match tk_self {
+            Some(tk_self) if !has_type => FnParam::Receiver(FnReceiverParam {
                 attributes,
                 tk_ref,
                 lifetime,
                 tk_mut,
                 tk_self,
-            })
-        } else {
-            // TODO - handle non-ident argument names
-            let param_name = parse_any_ident(&mut tokens, "fn param name");
-            let tk_colon = parse_punct(&mut tokens, ':', "fn params");
-
-            let ty_tokens = consume_field_type(&mut tokens);
-            FnParam::Typed(FnTypedParam {
-                attributes,
-                tk_mut,
-                name: param_name,
-                tk_colon,
-                ty: TypeExpr { tokens: ty_tokens },
-            })
+            }),
+            tk_self => {
+                // TODO - handle non-ident argument names
+                let param_name =
+                    tk_self.unwrap_or_else(|| parse_any_ident(&mut tokens, "fn param name"));
+                let tk_colon = parse_punct(&mut tokens, ':', "fn params");
+
+                let ty_tokens = consume_field_type(&mut tokens);
+                FnParam::Typed(FnTypedParam {
+                    attributes,
+                    tk_mut,
+                    name: param_name,
+                    tk_colon,
+                    ty: TypeExpr { tokens: ty_tokens },
+                })
+            }
         };
 
         let comma = consume_comma(&mut tokens);
-- 
2.43.0


From 11a04354bfa6ebd3bc284128a209a1e4eed970c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:59 +0000
Subject: [PATCH 04/19] fix: reject reference patterns in parameters instead of
 dropping the &

---
 src/parse_fn.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index beb2271..d1f58e0 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -100,6 +100,9 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
             }),
             tk_self => {
                 // TODO - handle non-ident argument names
+                if tk_ref.is_some() || lifetime.is_some() {
+                    panic!("cannot parse fn params: patterns are not supported");
+                }
                 let param_name =
                     tk_self.unwrap_or_else(|| parse_any_ident(&mut tokens, "fn param name"));
                 let tk_colon = parse_punct(&mut tokens, ':', "fn params");
-- 
2.43.0


From 9913c8901d6093deebe1e1119c07fdc0748def33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:02 +0000
Subject: [PATCH 05/19] fix: reject parameters and enum variants that are not
 separated by commas

---
 src/parse_fn.rs   |  6 ++++++
 src/parse_type.rs | 10 ++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index d1f58e0..c330b36 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -119,6 +119,12 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
         };
 
         let comma = consume_comma(&mut tokens);
+        if let (None, Some(token)) = (&comma, tokens.peek()) {
+            panic!(
+                "cannot parse fn params: expected ',', found token {:?}",
+                token
+            );
+        }
 
         fields.push(param, comma);
     }
diff --git a/src/parse_type.rs b/src/parse_type.rs
index 642bf95..b4e4581 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -424,9 +424,15 @@ pub(crate) fn parse_enum_variants(tokens: TokenStream) -> Result<Punctuated<Enum
             token => panic!("cannot parse enum variant: unexpected token {:?}", token),
         };
 
-        let enum_discriminant = consume_enum_discriminant(&mut tokens);
+        let enum_discriminant = consume_enum_discriminant(&mut tokens)?;
 
         let comma = consume_comma(&mut tokens);
+        if let (None, Some(token)) = (&comma, tokens.peek()) {
+            panic!(
+                "cannot parse enum variant: expected ',', found token {:?}",
+                token
+            );
+        }
 
         variants.push(
             EnumVariant {
@@ -434,7 +440,7 @@ pub(crate) fn parse_enum_variants(tokens: TokenStream) -> Result<Punctuated<Enum
                 vis_marker,
                 name: variant_name,
                 fields: contents,
-                value: enum_discriminant?,
+                value: enum_discriminant,
             },
             comma,
         );
-- 
2.43.0


From 2dc024dac12e6f66f2c8ce7297bf9b4180e78be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:04 +0000
Subject: [PATCH 06/19] fix: reject tokens after the group of an attribute
 instead of dropping them

---
 src/parse_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 26388df..447daa6 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -147,6 +147,10 @@ fn consume_attributes_with_inner(tokens: &mut TokenIter, expect_inner: bool) ->
             Some(TokenTree::Group(group)) => {
                 let tk_group = GroupSpan::new(group);
                 let value = group.stream().into_iter().collect();
+                attribute_tokens.next();
+                if let Some(token) = attribute_tokens.peek() {
+                    panic!("cannot parse attribute: expected `]`, found {:?}", token);
+                }
                 AttributeValue::Group(tk_group, value)
             }
             Some(TokenTree::Punct(punct)) if punct.as_char() == '=' => {
-- 
2.43.0


From f39fdcb5f2bc4298cf65fa74176213745a269c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:06 +0000
Subject: [PATCH 07/19] fix: leave a semicolon after a struct with named fields
 in the stream

---
 src/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index b3677aa..5a791d2 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -121,7 +121,10 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
                 where_clause = consume_where_clause(tokens);
             }
 
-            let semicolon = consume_punct(tokens, ';');
+            let semicolon = match struct_fields {
+                Fields::Named(_) => None,
+                _ => consume_punct(tokens, ';'),
+            };
 
             Item::Struct(Struct {
                 attributes,
-- 
2.43.0


From f638f82f06e1a32b5a3ddb62a081cd94173ad749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:34 +0000
Subject: [PATCH 08/19] fix: reject visibility markers on impl blocks and
 macros instead of dropping them

---
 src/parse.rs       |  6 +++++-
 src/parse_impl.rs  | 10 +++-------
 src/parse_utils.rs | 11 +++++++++++
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 5a791d2..aa2836f 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -8,7 +8,9 @@ use crate::parse_type::{
     consume_generic_params, consume_item_name, consume_where_clause, parse_enum_variants,
     parse_named_fields, parse_tuple_fields,
 };
-use crate::parse_utils::{consume_outer_attributes, consume_punct, consume_vis_marker};
+use crate::parse_utils::{
+    consume_outer_attributes, consume_punct, consume_vis_marker, reject_vis_marker,
+};
 use crate::types::{Enum, Fields, GroupSpan, Item, Struct, Union};
 use proc_macro2::token_stream::IntoIter;
 use proc_macro2::{Delimiter, TokenStream, TokenTree};
@@ -197,6 +199,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             Item::Trait(trait_decl)
         }
         Some(TokenTree::Ident(keyword)) if keyword == "impl" => {
+            reject_vis_marker(&vis_marker);
             let impl_decl = parse_impl(tokens, attributes);
             Item::Impl(impl_decl)
         }
@@ -225,6 +228,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             )
         }
         Some(token) => {
+            reject_vis_marker(&vis_marker);
             if let Some(macro_) = consume_macro(tokens, attributes) {
                 Item::Macro(macro_)
             } else {
diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 1b7244a..5ef0014 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -5,13 +5,13 @@ use crate::parse_type::{consume_bound, consume_generic_params, consume_where_cla
 use crate::parse_utils::{
     consume_ident, consume_inner_attributes, consume_outer_attributes, consume_punct,
     consume_stuff_until, consume_vis_marker, parse_any_ident, parse_ident, parse_punct,
+    reject_vis_marker,
 };
 use crate::types::{
     Attribute, Constant, GroupSpan, Impl, ImplMember, Item, Trait, TraitMember, TypeAlias,
     TypeExpr, ValueExpr, VisMarker,
 };
 use proc_macro2::{Delimiter, Group, TokenTree};
-use quote::ToTokens;
 use std::iter::Peekable;
 
 type TokenIter = Peekable<proc_macro2::token_stream::IntoIter>;
@@ -156,6 +156,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                         Item::Trait(trait_decl)
                     }
                     Err(NotFunction::Impl) => {
+                        reject_vis_marker(&vis_marker);
                         let impl_decl = parse_impl(tokens, attributes);
                         Item::Impl(impl_decl)
                     }
@@ -174,12 +175,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                 }
             }
             ident => {
-                if let Some(vis_marker) = vis_marker {
-                    panic!(
-                        "unsupported visibility marker `{}`",
-                        vis_marker.to_token_stream()
-                    );
-                }
+                reject_vis_marker(&vis_marker);
                 match consume_macro(tokens, attributes.clone()) {
                     Some(macro_) => Item::Macro(macro_),
                     None => panic!("unsupported {} item `{}`", context, ident),
diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 447daa6..e41edfe 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -1,6 +1,7 @@
 use crate::parse_type::consume_generic_args;
 use crate::types::{Attribute, AttributeValue, GroupSpan, Path, PathSegment, VisMarker};
 use proc_macro2::{Delimiter, Ident, Punct, Spacing, TokenStream, TokenTree};
+use quote::ToTokens;
 use std::iter::Peekable;
 
 pub(crate) type TokenIter = Peekable<proc_macro2::token_stream::IntoIter>;
@@ -215,6 +216,16 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
     }
 }
 
+/// Panics if there is a visibility marker, for items that cannot have one.
+pub(crate) fn reject_vis_marker(vis_marker: &Option<VisMarker>) {
+    if let Some(vis_marker) = vis_marker {
+        panic!(
+            "unsupported visibility marker `{}`",
+            vis_marker.to_token_stream()
+        );
+    }
+}
+
 // Consumes tokens until a separator is reached *unless* the
 // separator in between angle brackets
 // eg consume_stuff_until(..., |token| token == ',') will consume all
-- 
2.43.0


From 55a552c627be626ed7cb3e36b02ea88524c46edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:36 +0000
Subject: [PATCH 09/19] fix: recognise :: when it is immediately followed by
 another punctuation mark

---
 src/parse_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index e41edfe..2aa057b 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -301,7 +301,7 @@ pub(crate) fn consume_colon2(tokens: &mut TokenIter) -> Option<[Punct; 2]> {
     if let Some(TokenTree::Punct(first)) = tokens.next() {
         if first.as_char() == ':' && first.spacing() == Spacing::Joint {
             if let Some(TokenTree::Punct(second)) = tokens.next() {
-                if second.as_char() == ':' && second.spacing() == Spacing::Alone {
+                if second.as_char() == ':' {
                     return Some([first, second]);
                 }
             }
-- 
2.43.0


From 9fda3460632fb4dc73dc697f1d07153558444369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:39 +0000
Subject: [PATCH 10/19] fix: accept paths with :: on the left side of
 where-clause predicates

---
 src/parse_type.rs    | 29 +++++++++++++++++++++--------
 src/types_edition.rs |  9 +--------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index b4e4581..69cec98 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -212,6 +212,26 @@ pub(crate) fn consume_generic_args(tokens: &mut TokenIter) -> Option<GenericArgL
     })
 }
 
+/// Consumes the part of a where-clause predicate before the `:`, without stopping at
+/// the `::` of a path.
+pub(crate) fn consume_where_left_side(tokens: &mut TokenIter) -> Vec<TokenTree> {
+    let mut left_side = Vec::new();
+    loop {
+        left_side.extend(consume_stuff_until(
+            tokens,
+            |token| match token {
+                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
+                _ => false,
+            },
+            false,
+        ));
+        match consume_colon2(tokens) {
+            Some(colons) => left_side.extend(colons.map(TokenTree::from)),
+            None => return left_side,
+        }
+    }
+}
+
 pub(crate) fn consume_where_clause(tokens: &mut TokenIter) -> Option<WhereClause> {
     let where_token = consume_ident(tokens, "where")?;
 
@@ -227,14 +247,7 @@ pub(crate) fn consume_where_clause(tokens: &mut TokenIter) -> Option<WhereClause
             _ => (),
         };
 
-        let left_side = consume_stuff_until(
-            tokens,
-            |token| match token {
-                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
-                _ => false,
-            },
-            false,
-        );
+        let left_side = consume_where_left_side(tokens);
 
         let colon = match tokens.next() {
             Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct.clone(),
diff --git a/src/types_edition.rs b/src/types_edition.rs
index db7a2a2..b1c3e17 100644
--- a/src/types_edition.rs
+++ b/src/types_edition.rs
@@ -763,14 +763,7 @@ impl WhereClausePredicate {
     pub fn parse(tokens: TokenStream) -> Self {
         let mut tokens = tokens.into_iter().peekable();
 
-        let left_side = crate::parse_utils::consume_stuff_until(
-            &mut tokens,
-            |token| match token {
-                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
-                _ => false,
-            },
-            false,
-        );
+        let left_side = crate::parse_type::consume_where_left_side(&mut tokens);
 
         let colon = match tokens.next() {
             Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct,
-- 
2.43.0


From 253e32a11e9444093edd6a7ef9f77957813da02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:41 +0000
Subject: [PATCH 11/19] fix: keep the comma given to Punctuated::insert

---
 src/punctuated.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/punctuated.rs b/src/punctuated.rs
index 476f568..066287f 100644
--- a/src/punctuated.rs
+++ b/src/punctuated.rs
@@ -44,8 +44,8 @@ impl<T> Punctuated<T> {
         if index == self.len() {
             self.push(value, comma);
         } else {
-            self.inner
-                .insert(index, (value, Punct::new(',', Spacing::Alone)));
+            let comma = comma.unwrap_or_else(|| Punct::new(',', Spacing::Alone));
+            self.inner.insert(index, (value, comma));
         }
     }
 
-- 
2.43.0


From 8c61c5c6ed7c9f57471284c817fa889a9a9f40fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:00 +0000
Subject: [PATCH 12/19] fix: do not take the crate of a crate::Foo type for a
 visibility marker

---
 src/parse_utils.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 2aa057b..ba4b679 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -208,10 +208,19 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
                 }),
             }
         }
-        Some(TokenTree::Ident(ident)) if ident == "crate" => Some(VisMarker {
-            tk_token1: tokens.next().unwrap(),
-            tk_token2: None,
-        }),
+        Some(TokenTree::Ident(ident)) if ident == "crate" => {
+            let before_start = tokens.clone();
+            let crate_token = tokens.next().unwrap();
+            if consume_colon2(tokens).is_some() {
+                // start of a path such as `crate::Foo`
+                *tokens = before_start;
+                return None;
+            }
+            Some(VisMarker {
+                tk_token1: crate_token,
+                tk_token2: None,
+            })
+        }
         _ => None,
     }
 }
-- 
2.43.0


From aaad4aa660c924066132aa8391aa3efffba08c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:02 +0000
Subject: [PATCH 13/19] fix: accept public tuple fields whose type is a tuple

---
 src/parse_utils.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index ba4b679..1c7bff5 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -1,6 +1,6 @@
 use crate::parse_type::consume_generic_args;
 use crate::types::{Attribute, AttributeValue, GroupSpan, Path, PathSegment, VisMarker};
-use proc_macro2::{Delimiter, Ident, Punct, Spacing, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Group, Ident, Punct, Spacing, TokenStream, TokenTree};
 use quote::ToTokens;
 use std::iter::Peekable;
 
@@ -189,6 +189,24 @@ pub(crate) fn consume_inner_attributes(tokens: &mut TokenIter) -> Vec<Attribute>
     consume_attributes_with_inner(tokens, true)
 }
 
+/// Tells `pub(crate)`, `pub(self)`, `pub(super)` and `pub(in path)` from a tuple or
+/// parenthesised type after `pub`.
+fn is_vis_restriction(group: &Group) -> bool {
+    if group.delimiter() != Delimiter::Parenthesis {
+        return false;
+    }
+    let mut tokens = group.stream().into_iter();
+    match tokens.next() {
+        Some(TokenTree::Ident(ident)) if ident == "in" => true,
+        Some(TokenTree::Ident(ident))
+            if ident == "crate" || ident == "self" || ident == "super" =>
+        {
+            tokens.next().is_none()
+        }
+        _ => false,
+    }
+}
+
 pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
     match tokens.peek() {
         Some(TokenTree::Ident(ident)) if ident == "pub" => {
@@ -196,12 +214,10 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
                 .next()
                 .expect("cannot parse declaration: expected token after 'pub'");
             match tokens.peek() {
-                Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Parenthesis => {
-                    Some(VisMarker {
-                        tk_token1: pub_token,
-                        tk_token2: Some(tokens.next().unwrap()),
-                    })
-                }
+                Some(TokenTree::Group(group)) if is_vis_restriction(group) => Some(VisMarker {
+                    tk_token1: pub_token,
+                    tk_token2: Some(tokens.next().unwrap()),
+                }),
                 _ => Some(VisMarker {
                     tk_token1: pub_token,
                     tk_token2: None,
-- 
2.43.0


From 310afb168e14f9b1a23494e0fe63e5d72a3bcd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:26 +0000
Subject: [PATCH 14/19] fix: report complex enum discriminants inside modules
 as errors, as documented

---
 src/parse.rs      |  4 ++--
 src/parse_impl.rs | 20 +++++++++++---------
 src/parse_mod.rs  | 11 +++++------
 3 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index aa2836f..fb79df9 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -191,7 +191,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             })
         }
         Some(TokenTree::Ident(keyword)) if keyword == "mod" => {
-            let mod_decl = parse_mod(tokens, attributes, vis_marker);
+            let mod_decl = parse_mod(tokens, attributes, vis_marker)?;
             Item::Module(mod_decl)
         }
         Some(TokenTree::Ident(keyword)) if keyword == "trait" => {
@@ -225,7 +225,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
                 attributes,
                 vis_marker,
                 "fn/type/const/static/extern/extern crate",
-            )
+            )?
         }
         Some(token) => {
             reject_vis_marker(&vis_marker);
diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 5ef0014..22471ca 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -1,3 +1,4 @@
+use crate::error::Error;
 use crate::parse_extern::{parse_extern_block, parse_extern_crate};
 use crate::parse_fn::{consume_fn, consume_macro, NotFunction};
 use crate::parse_mod::parse_mod;
@@ -130,8 +131,8 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
     attributes: Vec<Attribute>,
     vis_marker: Option<VisMarker>,
     context: &str, // for panic
-) -> Item {
-    if let Some(TokenTree::Ident(ident)) = tokens.peek() {
+) -> Result<Item, Error> {
+    let item = if let Some(TokenTree::Ident(ident)) = tokens.peek() {
         let keyword = ident.to_string();
         match keyword.as_str() {
             "type" => {
@@ -161,7 +162,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                         Item::Impl(impl_decl)
                     }
                     Err(NotFunction::Mod) => {
-                        let mod_decl = parse_mod(tokens, attributes, vis_marker);
+                        let mod_decl = parse_mod(tokens, attributes, vis_marker)?;
                         Item::Module(mod_decl)
                     }
                     Err(NotFunction::ExternBlock) => {
@@ -184,7 +185,8 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
         }
     } else {
         panic!("unsupported {} element: {:?}", context, tokens.peek())
-    }
+    };
+    Ok(item)
 }
 
 pub(crate) fn parse_impl_body(
@@ -208,17 +210,17 @@ pub(crate) fn parse_impl_body(
             vis_marker,
             "impl",
         ) {
-            Item::Function(function) => ImplMember::AssocFunction(function),
-            Item::Constant(const_) if const_.tk_const_or_static == "const" => {
+            Ok(Item::Function(function)) => ImplMember::AssocFunction(function),
+            Ok(Item::Constant(const_)) if const_.tk_const_or_static == "const" => {
                 // `const` can appear in impl/trait blocks.
                 ImplMember::AssocConstant(const_)
             }
-            Item::Constant(static_) if allow_static => {
+            Ok(Item::Constant(static_)) if allow_static => {
                 // `static` can appear in `extern "abi" {}` blocks.
                 ImplMember::AssocConstant(static_)
             }
-            Item::TypeAlias(ty_def) => ImplMember::AssocType(ty_def),
-            Item::Macro(macro_) => ImplMember::Macro(macro_),
+            Ok(Item::TypeAlias(ty_def)) => ImplMember::AssocType(ty_def),
+            Ok(Item::Macro(macro_)) => ImplMember::Macro(macro_),
             _ => panic!("unsupported impl item `{:?}`", tokens.peek()),
         };
 
diff --git a/src/parse_mod.rs b/src/parse_mod.rs
index a121b41..769b526 100644
--- a/src/parse_mod.rs
+++ b/src/parse_mod.rs
@@ -1,3 +1,4 @@
+use crate::error::Error;
 use crate::parse::consume_item;
 use crate::parse_type::consume_item_name;
 use crate::parse_utils::{
@@ -13,7 +14,7 @@ pub(crate) fn parse_mod(
     tokens: &mut Peekable<IntoIter>,
     attributes: Vec<Attribute>,
     vis_marker: Option<VisMarker>,
-) -> Module {
+) -> Result<Module, Error> {
     let tk_unsafe = consume_ident(tokens, "unsafe");
     let tk_mod = parse_ident(tokens, "mod", "module declaration");
     let module_name = consume_item_name(tokens);
@@ -41,9 +42,7 @@ pub(crate) fn parse_mod(
             if tokens.peek().is_none() {
                 break;
             }
-            let item =
-                consume_item(&mut tokens).unwrap_or_else(|e| panic!("declaration in mod: {}", e));
-            mod_members.push(item);
+            mod_members.push(consume_item(&mut tokens)?);
         }
         members = mod_members;
     } else {
@@ -52,7 +51,7 @@ pub(crate) fn parse_mod(
         members = vec![];
     }
 
-    Module {
+    Ok(Module {
         attributes,
         vis_marker,
         tk_unsafe,
@@ -62,7 +61,7 @@ pub(crate) fn parse_mod(
         tk_braces,
         inner_attributes,
         members,
-    }
+    })
 }
 
 pub(crate) fn parse_use_declaration(
-- 
2.43.0


From f4697ec71033c2bb6d85ddd73a8772ba5d8a3441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:47 +0000
Subject: [PATCH 15/19] fix: return None from TypeExpr::as_path instead of
 panicking or losing a comma

---
 src/parse_fn.rs   |  2 +-
 src/parse_type.rs | 43 +++++++++++++++++++++++--------------------
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index c330b36..da6292b 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -80,7 +80,7 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
         let attributes = consume_outer_attributes(&mut tokens);
 
         let tk_ref = consume_punct(&mut tokens, '&');
-        let lifetime = consume_lifetime(&mut tokens, false);
+        let lifetime = consume_lifetime(&mut tokens);
         let tk_mut = consume_ident(&mut tokens, "mut");
         let tk_self = consume_ident(&mut tokens, "self");
 
diff --git a/src/parse_type.rs b/src/parse_type.rs
index 69cec98..281f816 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -94,12 +94,18 @@ pub(crate) fn consume_generic_params(tokens: &mut TokenIter) -> Option<GenericPa
 
 fn parse_generic_arg(tokens: Vec<TokenTree>) -> GenericArg {
     // Note: method not called if tokens is empty
-    let mut tokens = tokens.into_iter().peekable();
-
-    if let Some(lifetime) = consume_lifetime(&mut tokens, true) {
-        return GenericArg::Lifetime { lifetime };
+    if let [TokenTree::Punct(tk_apostrophe), TokenTree::Ident(name)] = tokens.as_slice() {
+        if tk_apostrophe.as_char() == '\'' {
+            let lifetime = Lifetime {
+                tk_apostrophe: tk_apostrophe.clone(),
+                name: name.clone(),
+            };
+            return GenericArg::Lifetime { lifetime };
+        }
     }
 
+    let mut tokens = tokens.into_iter().peekable();
+
     // Then, try parsing Item = ...
     // (there is at least 1 token, so unwrap is safe)
     // TODO also handle generic bindings (eg `LendingIterator<Item<'_> = XXX>`)
@@ -128,7 +134,6 @@ fn parse_generic_arg(tokens: Vec<TokenTree>) -> GenericArg {
 
 pub(crate) fn consume_lifetime(
     tokens: &mut Peekable<impl Iterator<Item = TokenTree>>,
-    expect_end: bool,
 ) -> Option<Lifetime> {
     // Try parsing 'lifetime
     let tk_apostrophe = match tokens.peek() {
@@ -142,19 +147,10 @@ pub(crate) fn consume_lifetime(
 
     // after the ', there must be a single identifier
     match tokens.next() {
-        Some(TokenTree::Ident(name)) => {
-            if expect_end {
-                assert!(
-                    tokens.next().is_none(),
-                    "cannot parse lifetime generic argument"
-                );
-            }
-
-            Some(Lifetime {
-                tk_apostrophe,
-                name,
-            })
-        }
+        Some(TokenTree::Ident(name)) => Some(Lifetime {
+            tk_apostrophe,
+            name,
+        }),
         Some(other) => {
             panic!(
                 "expected identifier after ' lifetime symbol, got {:?}",
@@ -192,17 +188,24 @@ pub(crate) fn consume_generic_args(tokens: &mut TokenIter) -> Option<GenericArgL
             |tk| matches!(tk, TokenTree::Punct(punct) if punct.as_char() == ','),
             false,
         );
-        let comma = consume_comma(tokens);
 
         // Exit when end reached
         if arg_tokens.is_empty() {
             break;
         }
 
+        let comma = consume_comma(tokens);
         generic_args.push(parse_generic_arg(arg_tokens), comma);
     }
 
-    let tk_r_bracket = parse_punct(tokens, '>', "end of generic argument list");
+    let tk_r_bracket = match consume_punct(tokens, '>') {
+        Some(punct) => punct,
+        None => {
+            // Not a generic argument list
+            *tokens = before_start;
+            return None;
+        }
+    };
 
     Some(GenericArgList {
         tk_turbofish_colons,
-- 
2.43.0


From 18c0c95824e774b39fe8ecd76174846db2820e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:44 +0000
Subject: [PATCH 16/19] fix: accept generic parameter bounds with an arrow,
 like F: Fn(A) -> B

---
 src/parse_utils.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 1c7bff5..1bceb4d 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -273,8 +273,11 @@ pub(crate) fn consume_stuff_until(
                 bracket_count += 1;
                 false
             }
-            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' && !prev_token_is_dash => {
-                bracket_count -= 1;
+            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' => {
+                // The '>' of an arrow neither closes a bracket nor ends the expression
+                if !prev_token_is_dash {
+                    bracket_count -= 1;
+                }
                 false
             }
             Some(TokenTree::Punct(punct)) if punct.as_char() == '-' => true,
-- 
2.43.0


From 35d160542088738da31b3a285484eb4f777dd06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:52 +0000
Subject: [PATCH 17/19] fix: accept macro invocations with square brackets

---
 src/parse_fn.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index da6292b..9cc976b 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -292,15 +292,16 @@ fn consume_macro_inner(tokens: &mut TokenIter, attributes: Vec<Attribute>) -> Op
     let tk_bang = consume_punct(tokens, '!')?;
     let tk_declared_name = consume_any_ident(tokens);
 
-    let (is_paren, macro_body) = match tokens.next().expect("unexpected end of macro") {
+    let (needs_semicolon, macro_body) = match tokens.next().expect("unexpected end of macro") {
         TokenTree::Group(group) if group.delimiter() == Delimiter::Parenthesis => (true, group),
+        TokenTree::Group(group) if group.delimiter() == Delimiter::Bracket => (true, group),
         TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => (false, group),
-        _ => panic!("cannot parse macro; missing `{{}}` or `()` group"),
+        _ => panic!("cannot parse macro; missing `{{}}`, `()` or `[]` group"),
     };
 
     let inner_tokens = macro_body.stream().into_iter().collect();
 
-    let tk_semicolon = if is_paren {
+    let tk_semicolon = if needs_semicolon {
         Some(parse_punct(tokens, ';', "macro invocation semicolon"))
     } else {
         None
-- 
2.43.0


From efc54008b9fbe0c952d77cfa7fff16d1df044ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:05 +0000
Subject: [PATCH 18/19] fix: accept macros named union or default

---
 src/parse.rs      | 8 +++++---
 src/parse_fn.rs   | 8 ++++++++
 src/parse_impl.rs | 6 ++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index fb79df9..aca3d0e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1,5 +1,5 @@
 use crate::error::Error;
-use crate::parse_fn::consume_macro;
+use crate::parse_fn::{consume_macro, is_macro_named};
 use crate::parse_impl::{
     consume_either_fn_type_const_static_impl, parse_const_or_static, parse_impl, parse_trait,
 };
@@ -165,7 +165,9 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
                 variants: enum_variants?,
             })
         }
-        Some(TokenTree::Ident(keyword)) if keyword == "union" => {
+        Some(TokenTree::Ident(keyword))
+            if keyword == "union" && !is_macro_named(tokens, "union") =>
+        {
             // union keyword
             tokens.next().unwrap();
 
@@ -217,7 +219,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             if matches!(
                 keyword.to_string().as_str(),
                 "default" | "const" | "async" | "unsafe" | "extern" | "fn" | "type"
-            ) =>
+            ) && !is_macro_named(tokens, "default") =>
         {
             // Reuse impl parsing
             consume_either_fn_type_const_static_impl(
diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 9cc976b..2f59c93 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -273,6 +273,14 @@ pub(crate) fn consume_fn(
     })
 }
 
+/// Checks whether the next tokens are `name!`, without consuming them.
+///
+/// Contextual keywords like `union` and `default` are valid macro names.
+pub(crate) fn is_macro_named(tokens: &TokenIter, name: &str) -> bool {
+    let mut tokens = tokens.clone();
+    consume_ident(&mut tokens, name).is_some() && consume_punct(&mut tokens, '!').is_some()
+}
+
 pub(crate) fn consume_macro(tokens: &mut TokenIter, attributes: Vec<Attribute>) -> Option<Macro> {
     // TODO consider multiple-lookahead instead of potentially cloning many tokens
     let before_start = tokens.clone();
diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 22471ca..cea817c 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -1,6 +1,6 @@
 use crate::error::Error;
 use crate::parse_extern::{parse_extern_block, parse_extern_crate};
-use crate::parse_fn::{consume_fn, consume_macro, NotFunction};
+use crate::parse_fn::{consume_fn, consume_macro, is_macro_named, NotFunction};
 use crate::parse_mod::parse_mod;
 use crate::parse_type::{consume_bound, consume_generic_params, consume_where_clause};
 use crate::parse_utils::{
@@ -141,7 +141,9 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
             }
 
             // Note: `static` is only used for extern "abi" {} blocks. Checked in call site.
-            "default" | "const" | "static" | "async" | "unsafe" | "extern" | "fn" => {
+            "default" | "const" | "static" | "async" | "unsafe" | "extern" | "fn"
+                if !is_macro_named(tokens, "default") =>
+            {
                 match consume_fn(tokens, attributes.clone(), vis_marker.clone()) {
                     Ok(method) => Item::Function(method),
                     Err(NotFunction::Const) => {
-- 
2.43.0


From c2f18b567c5a4053a4d5f52eca8a4903bc437e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:48 +0000
Subject: [PATCH 19/19] fix: take the for of a higher-ranked type for part of
 the type an impl is for

---
 src/parse_impl.rs | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index cea817c..f2ff233 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -232,20 +232,42 @@ pub(crate) fn parse_impl_body(
     (GroupSpan::new(&token_group), inner_attributes, body_items)
 }
 
+/// Checks whether the next tokens are the start of `for<'a>`, as opposed to the `for` of
+/// `impl Foo for Bar` and `impl Foo for <Bar as Baz>::Qux`.
+fn is_higher_ranked_for(tokens: &TokenIter) -> bool {
+    let mut tokens = tokens.clone();
+    consume_ident(&mut tokens, "for").is_some()
+        && consume_punct(&mut tokens, '<').is_some()
+        && matches!(
+            tokens.peek(),
+            Some(TokenTree::Punct(punct)) if punct.as_char() == '\'' || punct.as_char() == '>'
+        )
+}
+
 pub(crate) fn parse_impl(tokens: &mut TokenIter, attributes: Vec<Attribute>) -> Impl {
     let tk_unsafe = consume_ident(tokens, "unsafe");
     let tk_impl = parse_ident(tokens, "impl", "impl block");
 
     let impl_generic_params = consume_generic_params(tokens);
-    let trait_or_self_ty = consume_stuff_until(
-        tokens,
-        |tk| match tk {
-            TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,
-            TokenTree::Ident(ident) if ident == "for" || ident == "where" => true,
-            _ => false,
-        },
-        true,
-    );
+    let mut trait_or_self_ty = Vec::new();
+    loop {
+        // A `for<'a>` is part of the type
+        if is_higher_ranked_for(tokens) {
+            trait_or_self_ty.extend(tokens.next());
+        }
+        trait_or_self_ty.extend(consume_stuff_until(
+            tokens,
+            |tk| match tk {
+                TokenTree::Group(group) if group.delimiter() == Delimiter::Brace => true,
+                TokenTree::Ident(ident) if ident == "for" || ident == "where" => true,
+                _ => false,
+            },
+            true,
+        ));
+        if !is_higher_ranked_for(tokens) {
+            break;
+        }
+    }
 
     let (tk_for, trait_ty, self_ty) = if let Some(tk_for) = consume_ident(tokens, "for") {
         let self_ty = consume_stuff_until(
-- 
2.43.0

