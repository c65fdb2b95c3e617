From 2713b1a556e6639b25ed8ece25298fe28fa81ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 01/14] fix: add terminals of nullable non-terminals to first
 sets

---
 src/first.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/first.rs b/src/first.rs
index 3694540..00ffb35 100644
--- a/src/first.rs
+++ b/src/first.rs
@@ -75,15 +75,15 @@ pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
                 for symbol in &production.symbols {
                     match &symbol.symbol {
                         Symbol::NonTerminal(nt) => {
-                            let FirstSet { empty, terminals } = table.get_first(*nt);
-                            if *empty {
-                                // Continue to the next symbol in the production
-                                continue;
-                            }
                             // TODO: clone below to avoid borrowck issues
-                            for terminal in terminals.clone() {
+                            let FirstSet { empty, terminals } = table.get_first(*nt).clone();
+                            for terminal in terminals {
                                 updated |= table.add_first(non_terminal_idx, terminal);
                             }
+                            if empty {
+                                // Continue to the next symbol in the production
+                                continue;
+                            }
                             continue 'production_loop;
                         }
                         Symbol::Terminal(terminal) => {
-- 
2.43.0


From 11bec896fd0f1a2857612ba2c5b22b8f353df558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 02/14] fix: iterate first sets until nullability stops
 changing

---
 src/first.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/first.rs b/src/first.rs
index 00ffb35..5248494 100644
--- a/src/first.rs
+++ b/src/first.rs
@@ -94,7 +94,7 @@ pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
                 }
                 // If we reached here then all symbols in the production are empty, so the
                 // non-terminal can be empty
-                table.set_empty(non_terminal_idx);
+                updated |= table.set_empty(non_terminal_idx);
             }
         }
     }
-- 
2.43.0


From cb82beb8edbdc0c00c5e79a2f83abbd766759e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 03/14] fix: report conflicts between accepting and reducing

---
 src/lr_common.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lr_common.rs b/src/lr_common.rs
index 2c9e923..9c1d3ec 100644
--- a/src/lr_common.rs
+++ b/src/lr_common.rs
@@ -148,13 +148,19 @@ impl<A: fmt::Debug + Eq> LRTableBuilder<A> {
     }
 
     pub fn add_accept(&mut self, state: StateIdx) {
-        let _old = self
+        let old_action = self
             .table
             .action
             .entry(state)
             .or_default()
             .insert(None, LRAction::Accept);
-        // assert_eq!(old, None);
+
+        if let Some(LRAction::Reduce(nt_, p_, _)) = old_action {
+            panic!(
+                "({}, None): Overriding Reduce({}, {}) action with Accept",
+                state.0, nt_.0, p_.0
+            );
+        }
     }
 
     pub fn add_goto(&mut self, state: StateIdx, non_terminal_idx: NonTerminalIdx, next: StateIdx) {
-- 
2.43.0


From dc2a501b58802586c0d7051311b98df75bcd344c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 04/14] fix: do not let binders capture the value stack of
 action functions

---
 src/codegen.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 1245dd8..64801bc 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -31,6 +31,9 @@ pub fn generate_semantic_action_table(
     let mut decls: Vec<TokenStream> = vec![];
     let mut fn_names: Vec<syn::Ident> = vec![];
 
+    // Hygienic, to avoid clashing with binders named `value_stack`
+    let value_stack = syn::Ident::new("value_stack", Span::mixed_site());
+
     let non_terminals: Vec<NonTerminal<SemanticActionIdx>> = non_terminals
         .into_iter()
         .enumerate()
@@ -55,7 +58,7 @@ pub fn generate_semantic_action_table(
                         for BoundSymbol { binder, symbol: kind } in symbols.iter().rev() {
                             match binder {
                                 None => {
-                                    pop_code.push(quote!(value_stack.pop()));
+                                    pop_code.push(quote!(#value_stack.pop()));
                                 }
                                 Some(Name {
                                     mutable,
@@ -73,7 +76,7 @@ pub fn generate_semantic_action_table(
                                         ),
                                     };
                                     pop_code.push(quote!(
-                                        let #mut_ #name = value_stack.pop().unwrap().#extract_method()
+                                        let #mut_ #name = #value_stack.pop().unwrap().#extract_method()
                                     ));
                                 }
                             }
@@ -92,10 +95,10 @@ pub fn generate_semantic_action_table(
 
                         decls.push(quote!(
                             fn #fn_name<#(#token_lifetimes),*>(
-                                value_stack: &mut Vec<SemanticActionResult<#(#token_lifetimes),*>>
+                                #value_stack: &mut Vec<SemanticActionResult<#(#token_lifetimes),*>>
                             ) {
                                 #(#pop_code;)*
-                                value_stack.push(SemanticActionResult::#non_terminal_variant(#action));
+                                #value_stack.push(SemanticActionResult::#non_terminal_variant(#action));
                             }
                         ));
 
-- 
2.43.0


From 7c84518bdfa848646762c15b524f872d9b176b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 05/14] fix: match tokens by value so that any Rust pattern
 means the same

---
 src/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 64801bc..ace383e 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -169,7 +169,7 @@ pub fn token_terminal_idx_fn(tokens: &TokenEnum) -> (syn::Ident, TokenStream) {
             #arg_name: &#type_name<#(#type_lifetimes),*>
         ) -> usize
         {
-            match #arg_name {
+            match *#arg_name {
                 #(#match_alts,)*
             }
         }
-- 
2.43.0


From 7f6222f60b91928708fde30aea95d14c9a8d2d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 06/14] fix: keep one-element tuple patterns tuples when
 capturing

---
 src/codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index ace383e..c2e64f3 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -439,7 +439,7 @@ fn generate_pattern_syn_with_idents_(pat: &Pattern, idents: &mut Vec<syn::Ident>
                 .map(|pat| generate_pattern_syn_with_idents_(pat, idents))
                 .collect();
 
-            quote!((#(#pats),*))
+            quote!((#(#pats,)*))
         }
 
         Pattern::Path(path) => quote!(#path),
-- 
2.43.0


From ba83bf0f16b09d6698a03a6b8c142fc4def3b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 07/14] fix: accept token patterns that start with self, super,
 crate or ::

---
 src/ast.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 58e7768..29d3ec0 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -192,7 +192,12 @@ impl Parse for Pattern {
                 fields.push(pair.into_value());
             }
             Ok(Pattern::Tuple(fields))
-        } else if input.peek(syn::Ident) {
+        } else if input.peek(syn::Ident)
+            || input.peek(syn::token::Colon2)
+            || input.peek(syn::token::SelfValue)
+            || input.peek(syn::token::Super)
+            || input.peek(syn::token::Crate)
+        {
             let path = input.parse::<syn::ExprPath>()?;
             // enum, struct, or just path
             if input.peek(syn::token::Paren) {
-- 
2.43.0


From 1474aaa5aa8711de639c01f309092749db118e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 08/14] fix: treat parenthesised token patterns as Rust does

---
 src/ast.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index 29d3ec0..660f84c 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -187,11 +187,19 @@ impl Parse for Pattern {
             syn::parenthesized!(contents in input);
             let pats: syn::punctuated::Punctuated<Pattern, syn::token::Comma> =
                 syn::punctuated::Punctuated::parse_terminated(&contents)?;
+            // As in Rust, `(<pat>)` is just `<pat>`, and `(<pat>,)` and `(..)` are tuples
+            let parens = pats.len() == 1 && !pats.trailing_punct();
             let mut fields: Vec<Pattern> = vec![];
             for pair in pats.into_pairs() {
                 fields.push(pair.into_value());
             }
-            Ok(Pattern::Tuple(fields))
+            match fields.pop() {
+                Some(pat) if parens && !matches!(pat, Pattern::DotDot) => Ok(pat),
+                last => {
+                    fields.extend(last);
+                    Ok(Pattern::Tuple(fields))
+                }
+            }
         } else if input.peek(syn::Ident)
             || input.peek(syn::token::Colon2)
             || input.peek(syn::token::SelfValue)
-- 
2.43.0


From 307ac5bf04c385a3b7c30fd086d61f00a55fe651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 09/14] fix: allow token lifetimes that no value uses

---
 src/codegen.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/codegen.rs b/src/codegen.rs
index c2e64f3..43b7b11 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -341,6 +341,14 @@ pub fn semantic_action_result_type<A>(
         }
     }
 
+    // Lifetimes of the token type may not be used in any of the variants
+    if !token_lifetimes.is_empty() {
+        variants.push(quote!(
+            #[allow(dead_code)]
+            Lifetimes(::std::marker::PhantomData<(#(&#token_lifetimes (),)*)>)
+        ));
+    }
+
     let code = quote!(
         #[derive(Debug)]
         enum #semantic_action_result_type_name<#(#token_lifetimes),*> {
-- 
2.43.0


From b39ecb837c2accf3a19cf7f2204ad9ab127fdd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 10/14] fix: do not let type parameters capture the user's
 types

---
 src/lr_codegen.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/lr_codegen.rs b/src/lr_codegen.rs
index a1bb892..b928e5d 100644
--- a/src/lr_codegen.rs
+++ b/src/lr_codegen.rs
@@ -76,6 +76,8 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
 
     // struct NonTerminal;
     // impl NonTerminal { fn parse() { ... } }
+    //
+    // Type parameters have the `__` prefix to avoid capturing the user's types.
     let parser_structs: Vec<TokenStream> = nt_state_indices
         .into_iter()
         .map(|(non_terminal_idx, parser_state)| {
@@ -102,9 +104,9 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
                 pub struct #non_terminal_name_id;
 
                 impl #non_terminal_name_id {
-                    pub fn parse<#(#token_lifetimes,)* E: Clone>(
-                        input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes,)*>, E>>
-                    ) -> Result<#non_terminal_return_type, ParseError<E>>
+                    pub fn parse<#(#token_lifetimes,)* __E: Clone>(
+                        input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes,)*>, __E>>
+                    ) -> Result<#non_terminal_return_type, ParseError<__E>>
                     {
                         parse_generic(
                             input,
@@ -171,12 +173,12 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
         // Maps terminals to their strings to be used in error messages
         #token_to_text_table
 
-        fn parse_generic<#(#token_lifetimes,)* R, E: Clone>(
-            mut input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes),*>, E>>,
-            extract_value: fn(SemanticActionResult<#(#token_lifetimes),*>) -> R,
+        fn parse_generic<#(#token_lifetimes,)* __R, __E: Clone>(
+            mut input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes),*>, __E>>,
+            extract_value: fn(SemanticActionResult<#(#token_lifetimes),*>) -> __R,
             init_state: u32,
             action_idx: usize,
-        ) -> Result<R, ParseError<E>>
+        ) -> Result<__R, ParseError<__E>>
         {
             let mut state_stack: Vec<u32> = vec![init_state];
             let mut value_stack: Vec<SemanticActionResult<#(#token_lifetimes),*>> = vec![];
-- 
2.43.0


From ba4125fe85cd33eaa83898b843e5838219ec1013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:10 +0000
Subject: [PATCH 11/14] fix: reject non-terminals that are defined twice

---
 src/lower.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lower.rs b/src/lower.rs
index c22a550..0af003d 100644
--- a/src/lower.rs
+++ b/src/lower.rs
@@ -27,6 +27,9 @@ pub fn lower(
     };
 
     for nt in &non_terminals {
+        if nt_indices.contains_key(&nt.name.to_string()) {
+            panic!("Non-terminal {} defined multiple times", nt.name);
+        }
         if nt.visibility.is_pub() {
             // For a `pub` non-terminal:
             //
-- 
2.43.0


From 9ca1f4170505691cb7bb86a461a190ced25b950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:20 +0000
Subject: [PATCH 12/14] fix: literals that are not strings were skipped in
 productions

A failing parse::<LitStr>() has already consumed the literal when it is of
another kind, so `S: T = 0 "a" => ..` meant `S: T = "a" => ..`.
---
 src/ast.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index 660f84c..d27cfdb 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -410,9 +410,9 @@ impl Parse for Symbol {
 }
 
 fn symbol0(input: &ParseBuffer) -> syn::Result<Symbol> {
-    // TODO: No peek for LitStr?
-    if let Ok(str) = input.parse::<syn::LitStr>() {
-        return Ok(Symbol::Terminal(str));
+    // `parse::<LitStr>()` consumes other kinds of literals even when it fails, so peek first
+    if input.peek(syn::LitStr) {
+        return Ok(Symbol::Terminal(input.parse::<syn::LitStr>()?));
     }
 
     if let Ok(ident) = input.parse::<syn::Ident>() {
-- 
2.43.0


From ce76643771116724a2755fee0d5a59018cbfafe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:28 +0000
Subject: [PATCH 13/14] fix: accept raw identifiers as names of parsers and
 token types

---
 src/codegen.rs    | 3 ++-
 src/lr_codegen.rs | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 43b7b11..0c322ba 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -5,6 +5,7 @@ use crate::lr_common::{LRTable, StateIdx};
 
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub struct SemanticActionIdx(u16);
@@ -150,7 +151,7 @@ pub fn token_terminal_idx_fn(tokens: &TokenEnum) -> (syn::Ident, TokenStream) {
     } = tokens;
 
     let fn_name = syn::Ident::new(
-        &(type_name.to_string().to_lowercase() + "_terminal_idx"),
+        &(type_name.unraw().to_string().to_lowercase() + "_terminal_idx"),
         type_name.span(),
     );
     let arg_name = syn::Ident::new("token", type_name.span());
diff --git a/src/lr_codegen.rs b/src/lr_codegen.rs
index b928e5d..9c1f453 100644
--- a/src/lr_codegen.rs
+++ b/src/lr_codegen.rs
@@ -83,8 +83,10 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
         .map(|(non_terminal_idx, parser_state)| {
             let parser_state = u32::try_from(parser_state.as_usize()).unwrap();
             let non_terminal = grammar.get_non_terminal(non_terminal_idx);
-            let non_terminal_name_id =
-                syn::Ident::new(&non_terminal.non_terminal, Span::call_site());
+            let non_terminal_name_id = match non_terminal.non_terminal.strip_prefix("r#") {
+                Some(name) => syn::Ident::new_raw(name, Span::call_site()),
+                None => syn::Ident::new(&non_terminal.non_terminal, Span::call_site()),
+            };
             let non_terminal_return_type = &non_terminal.return_ty;
             let action_idx = usize::from(
                 grammar
-- 
2.43.0


From 395404b21d2150eee2caa9cef87a222075f8581e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:15 +0000
Subject: [PATCH 14/14] fix: expand to paths that do not depend on what Result,
 Option, Vec, ... mean in scope

The generated code used the prelude's names, so a grammar next to a
`type Result<T> = ...` (or any item with the name of a prelude type,
trait or variant) did not compile.
---
 src/codegen.rs    |  4 ++--
 src/lr_codegen.rs | 37 +++++++++++++++++++++++++------------
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/codegen.rs b/src/codegen.rs
index 0c322ba..d716c56 100644
--- a/src/codegen.rs
+++ b/src/codegen.rs
@@ -96,7 +96,7 @@ pub fn generate_semantic_action_table(
 
                         decls.push(quote!(
                             fn #fn_name<#(#token_lifetimes),*>(
-                                #value_stack: &mut Vec<SemanticActionResult<#(#token_lifetimes),*>>
+                                #value_stack: &mut ::std::vec::Vec<SemanticActionResult<#(#token_lifetimes),*>>
                             ) {
                                 #(#pop_code;)*
                                 #value_stack.push(SemanticActionResult::#non_terminal_variant(#action));
@@ -124,7 +124,7 @@ pub fn generate_semantic_action_table(
 
     let n_fns = fn_names.len();
     decls.push(quote!(
-        static SEMANTIC_ACTIONS: [fn(&mut Vec<SemanticActionResult>); #n_fns] = [
+        static SEMANTIC_ACTIONS: [fn(&mut ::std::vec::Vec<SemanticActionResult>); #n_fns] = [
             #(#fn_names),*
         ];
     ));
diff --git a/src/lr_codegen.rs b/src/lr_codegen.rs
index 9c1f453..6fa8f25 100644
--- a/src/lr_codegen.rs
+++ b/src/lr_codegen.rs
@@ -106,9 +106,11 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
                 pub struct #non_terminal_name_id;
 
                 impl #non_terminal_name_id {
-                    pub fn parse<#(#token_lifetimes,)* __E: Clone>(
-                        input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes,)*>, __E>>
-                    ) -> Result<#non_terminal_return_type, ParseError<__E>>
+                    pub fn parse<#(#token_lifetimes,)* __E: ::std::clone::Clone>(
+                        input: impl ::std::iter::Iterator<
+                            Item=::std::result::Result<#token_type<#(#token_lifetimes,)*>, __E>
+                        >
+                    ) -> ::std::result::Result<#non_terminal_return_type, ParseError<__E>>
                     {
                         parse_generic(
                             input,
@@ -175,13 +177,20 @@ pub fn generate_lr1_parser(grammar: Grammar<syn::Expr>, tokens: &TokenEnum) -> T
         // Maps terminals to their strings to be used in error messages
         #token_to_text_table
 
-        fn parse_generic<#(#token_lifetimes,)* __R, __E: Clone>(
-            mut input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes),*>, __E>>,
+        fn parse_generic<#(#token_lifetimes,)* __R, __E: ::std::clone::Clone>(
+            mut input: impl ::std::iter::Iterator<
+                Item=::std::result::Result<#token_type<#(#token_lifetimes),*>, __E>
+            >,
             extract_value: fn(SemanticActionResult<#(#token_lifetimes),*>) -> __R,
             init_state: u32,
             action_idx: usize,
-        ) -> Result<__R, ParseError<__E>>
+        ) -> ::std::result::Result<__R, ParseError<__E>>
         {
+            // The names below may mean something else where the parser is declared
+            use ::std::option::Option::{None, Some};
+            use ::std::result::Result::{Err, Ok};
+            use ::std::vec::Vec;
+
             let mut state_stack: Vec<u32> = vec![init_state];
             let mut value_stack: Vec<SemanticActionResult<#(#token_lifetimes),*>> = vec![];
 
@@ -348,9 +357,11 @@ fn generate_action_array<A>(
     // +1 for EOF
     let terminal_array_len = n_terminals + 1;
     quote!(
-        static ACTION: [[Option<LRAction>; #terminal_array_len]; #n_states] = [
-            #(#state_array),*
-        ];
+        static ACTION: [[::std::option::Option<LRAction>; #terminal_array_len]; #n_states] = {
+            #[allow(unused_imports)]
+            use ::std::option::Option::{None, Some};
+            [#(#state_array),*]
+        };
     )
 }
 
@@ -378,8 +389,10 @@ fn generate_goto_array(
     }
 
     quote!(
-        static GOTO: [[Option<u32>; #n_non_terminals]; #n_states] = [
-            #(#state_array),*
-        ];
+        static GOTO: [[::std::option::Option<u32>; #n_non_terminals]; #n_states] = {
+            #[allow(unused_imports)]
+            use ::std::option::Option::{None, Some};
+            [#(#state_array),*]
+        };
     )
 }
-- 
2.43.0

