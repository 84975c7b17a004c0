From 284ca71f45a11df5391f47aea9f5567304fa985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 01/30] fix: reject multiple object arrays in the same
 direction

---
 idlc_mir_passes/src/interface_verifier.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/idlc_mir_passes/src/interface_verifier.rs b/idlc_mir_passes/src/interface_verifier.rs
index 5f44669..520813f 100644
--- a/idlc_mir_passes/src/interface_verifier.rs
+++ b/idlc_mir_passes/src/interface_verifier.rs
@@ -65,6 +65,12 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                                                     );
                                                 }
 
+                                                if args_array_in {
+                                                    idlc_errors::unrecoverable!(
+                                                        "Interface `{}`, method `{}` has multiple input object arrays",
+                                                        src.ident, f.ident,
+                                                    );
+                                                }
                                                 args_array_in = true;
                                             };
                                             if let Type::Struct(_) | Type::Primitive(_) = t {
@@ -107,6 +113,12 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                                                         iface_name, f.ident
                                                     );
                                                 }
+                                                if args_array_out {
+                                                    idlc_errors::unrecoverable!(
+                                                        "Interface `{}`, method `{}` has multiple output object arrays",
+                                                        src.ident, f.ident,
+                                                    );
+                                                }
                                                 args_array_out = true;
                                             };
                                             if let Type::Struct(_) | Type::Primitive(_) = t {
-- 
2.43.0


From 4a5233c13211a95cc72dc3183da58c4a47a87bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 02/30] fix: reject input arrays of small structs containing
 objects

---
 idlc_mir_passes/src/interface_verifier.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/idlc_mir_passes/src/interface_verifier.rs b/idlc_mir_passes/src/interface_verifier.rs
index 520813f..7d48dcc 100644
--- a/idlc_mir_passes/src/interface_verifier.rs
+++ b/idlc_mir_passes/src/interface_verifier.rs
@@ -74,7 +74,10 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                                                 args_array_in = true;
                                             };
                                             if let Type::Struct(_) | Type::Primitive(_) = t {
-                                                if let Type::Struct(Struct::Big(s)) = t {
+                                                if let Type::Struct(
+                                                    Struct::Big(s) | Struct::Small(s),
+                                                ) = t
+                                                {
                                                     if s.contains_interfaces() {
                                                         idlc_errors::unrecoverable!(
                                                             "Struct with Object inside cannot be used as an array",
-- 
2.43.0


From 2231dc034d321c1b46592150fac24c1ac7e94047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 03/30] fix: verify interfaces in the library entry point

---
 idlc/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/idlc/src/lib.rs b/idlc/src/lib.rs
index f4d5160..5ed1221 100644
--- a/idlc/src/lib.rs
+++ b/idlc/src/lib.rs
@@ -5,6 +5,7 @@ use idlc_ast_passes::{cycles, functions, idl_store::IDLStore, struct_verifier, C
 use idlc_codegen::{Descriptor, Generator};
 use idlc_errors::trace;
 use idlc_mir::mir;
+use idlc_mir_passes::{interface_verifier, MirCompilerPass};
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum Language {
@@ -34,6 +35,9 @@ impl Language {
 
         let mir = mir::parse_to_mir(&ast, &mut idl_store);
 
+        trace!("Running `InterfaceVerifier` pass");
+        interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+
         match self {
             Self::Rust => Ok(idlc_codegen_rust::Generator::generate(&mir)),
         }
-- 
2.43.0


From 651bf8a26d74f0594b52dcdb86ca179604038d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:56 +0000
Subject: [PATCH 04/30] fix: reject constants sharing a name with a struct or
 interface

---
 idlc_ast_passes/src/idl_store.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index ee7bb5f..a534ad6 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -155,6 +155,16 @@ impl IDLStore {
     fn gather_symbols_from_ast(ast: &Ast, map: &mut HashMap<Symbol, (Rc<Node>, PathBuf)>) {
         let tag = &ast.tag;
         for node in &ast.nodes {
+            let clash = match node.as_ref() {
+                Node::Struct(s) => Some(Symbol::Const(s.ident.to_string())),
+                Node::Interface(i) => Some(Symbol::Const(i.ident.to_string())),
+                Node::Const(c) => Some(Symbol::Struct(c.ident.to_string())),
+                _ => None,
+            };
+            assert!(
+                !clash.is_some_and(|symbol| map.contains_key(&symbol)),
+                "Duplicate symbol detected!"
+            );
             assert_eq!(
                 match node.as_ref() {
                     Node::Struct(s) => map.insert(
-- 
2.43.0


From 0a835f7a389b893b7d29a016d4e409fbc90f85de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 05/30] fix: verify the declarations of included files

---
 idlc/src/lib.rs                  |  9 +++++++++
 idlc/src/main.rs                 | 11 +++++++++++
 idlc_ast_passes/src/idl_store.rs |  8 ++++++++
 3 files changed, 28 insertions(+)

diff --git a/idlc/src/lib.rs b/idlc/src/lib.rs
index 5ed1221..041c3f3 100644
--- a/idlc/src/lib.rs
+++ b/idlc/src/lib.rs
@@ -33,6 +33,15 @@ impl Language {
         trace!("Running `StructVerifier` pass");
         struct_verifier::StructVerifier::run_pass(&idl_store, &struct_ordering)?;
 
+        trace!("Verifying included files");
+        for included in idl_store.asts() {
+            functions::Functions::new().run_pass(&included)?;
+            let ordering = cycles::Cycles::new(&idl_store).run_pass(&included)?;
+            struct_verifier::StructVerifier::run_pass(&idl_store, &ordering)?;
+            let mir = mir::parse_to_mir(&included, &mut idl_store);
+            interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+        }
+
         let mir = mir::parse_to_mir(&ast, &mut idl_store);
 
         trace!("Running `InterfaceVerifier` pass");
diff --git a/idlc/src/main.rs b/idlc/src/main.rs
index 8b4bc25..8cf41da 100644
--- a/idlc/src/main.rs
+++ b/idlc/src/main.rs
@@ -156,6 +156,17 @@ fn main() {
         std::process::exit(0);
     }
 
+    trace!("Verifying included files");
+    for included in idl_store.asts() {
+        check(idlc_ast_passes::functions::Functions::new().run_pass(&included));
+        let ordering = check(cycles::Cycles::new(&idl_store).run_pass(&included));
+        check(struct_verifier::StructVerifier::run_pass(
+            &idl_store, &ordering,
+        ));
+        let mir = mir::parse_to_mir(&included, &mut idl_store);
+        interface_verifier::InterfaceVerifier::new(&mir).run_pass();
+    }
+
     trace!("Verifying interfaces");
     interface_verifier::InterfaceVerifier::new(&mir).run_pass();
 
diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index a534ad6..ec3d3f4 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -98,6 +98,14 @@ impl IDLStore {
         ))
     }
 
+    /// returns every AST loaded so far, ordered by path
+    pub fn asts(&self) -> Vec<Rc<Ast>> {
+        let store = self.ast_store.borrow();
+        let mut asts: Vec<_> = store.iter().collect();
+        asts.sort_by_key(|(path, _)| *path);
+        asts.into_iter().map(|(_, ast)| Rc::clone(ast)).collect()
+    }
+
     fn change_to_canonical<'a>(&mut self, current: &'a Path, path: &'a Path) -> PathBuf {
         if self.ast_store.borrow().contains_key(path) {
             return path.to_path_buf();
-- 
2.43.0


From c35e58c06f9929b4a9777a81ef9112ede0376acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 06/30] fix: skip comments inside declarations

---
 idlc_ast/src/pst.rs | 59 ++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index dc7d305..b7d2d12 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -54,6 +54,15 @@ macro_rules! ast_unwrap {
     }};
 }
 
+/// Children of `pair` without the comments the grammar admits between any two tokens.
+fn inner(pair: Pair<'_, Rule>) -> impl Iterator<Item = Pair<'_, Rule>> {
+    pair.into_inner().filter(|p| p.as_rule() != Rule::COMMENT)
+}
+
+fn parse_array_size(pair: Pair<'_, Rule>) -> Count {
+    ast_unwrap!(ast_unwrap!(inner(pair).next()).as_str().parse())
+}
+
 impl From<pest::Span<'_>> for Span {
     fn from(value: pest::Span) -> Self {
         Self {
@@ -84,11 +93,11 @@ impl InterfaceNode {
         match pair.as_rule() {
             Rule::error => Self::Error(Ident {
                 span: pair.as_span().into(),
-                ident: pair.into_inner().nth(1).unwrap().as_str().to_string(),
+                ident: inner(pair).nth(1).unwrap().as_str().to_string(),
             }),
             Rule::r#const => Self::Const(parse_const(pair, allow_undefined_behavior)),
             Rule::function => {
-                let mut inner = pair.into_inner();
+                let mut inner = inner(pair);
                 let mut attributes = Vec::new();
                 let function_keyword = ast_unwrap!(inner.next());
                 for attribute in function_keyword.into_inner() {
@@ -139,7 +148,7 @@ impl<'a> From<Pair<'a, Rule>> for FunctionAttribute {
 
 impl<'a> From<Pair<'a, Rule>> for Param {
     fn from(value: Pair<'a, Rule>) -> Self {
-        let mut params = value.into_inner();
+        let mut params = inner(value);
         let mutability = ast_unwrap!(params.next()).as_str();
         let r#type = ast_unwrap!(params.next());
         let ident = ast_unwrap!(params.next()).into();
@@ -178,7 +187,7 @@ impl From<Pair<'_, Rule>> for Type {
 impl From<Pair<'_, Rule>> for ParamTypeIn {
     fn from(rule: Pair<Rule>) -> Self {
         debug_assert_eq!(rule.as_rule(), Rule::param_type);
-        let mut inner = rule.into_inner();
+        let mut inner = inner(rule);
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
@@ -189,10 +198,7 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
         if let Some(pair) = inner.next() {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
-                Rule::bounded_array => {
-                    let array_len: Count = ast_unwrap!(pair.into_inner().as_str().parse());
-                    Self::Array(r#type, Some(array_len))
-                }
+                Rule::bounded_array => Self::Array(r#type, Some(parse_array_size(pair))),
                 _ => unreachable!(),
             }
         } else {
@@ -203,7 +209,7 @@ impl From<Pair<'_, Rule>> for ParamTypeIn {
 impl From<Pair<'_, Rule>> for ParamTypeOut {
     fn from(rule: Pair<Rule>) -> Self {
         debug_assert_eq!(rule.as_rule(), Rule::param_type);
-        let mut inner = rule.into_inner();
+        let mut inner = inner(rule);
         let r#type = Type::from(ast_unwrap!(inner.next()));
         if let Type::Custom(r#type) = &r#type {
             if r#type == "buffer" {
@@ -214,10 +220,7 @@ impl From<Pair<'_, Rule>> for ParamTypeOut {
         if let Some(pair) = inner.next() {
             match pair.as_rule() {
                 Rule::unbounded_array => Self::Array(r#type, None),
-                Rule::bounded_array => {
-                    let array_len: Count = ast_unwrap!(pair.into_inner().as_str().parse());
-                    Self::Array(r#type, Some(array_len))
-                }
+                Rule::bounded_array => Self::Array(r#type, Some(parse_array_size(pair))),
                 _ => unreachable!(),
             }
         } else {
@@ -253,19 +256,18 @@ fn parse_include(pair: Pair<Rule>) -> Rc<Node> {
 }
 
 fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
-    let mut struct_pst = pair.into_inner().skip(1);
+    let mut struct_pst = inner(pair).skip(1);
     let ident: Ident = ast_unwrap!(struct_pst.next()).into();
     let mut fields = Vec::<StructField>::new();
     for rule in struct_pst {
         match rule.as_rule() {
             Rule::struct_field => {
-                let mut iter = rule.into_inner();
+                let mut iter = inner(rule);
                 let r#type = Type::from(ast_unwrap!(iter.next()));
                 let next = ast_unwrap!(iter.next());
                 let (elem, ident) = match next.as_rule() {
                     Rule::bounded_array => {
-                        let array_len: Count =
-                            ast_unwrap!(next.clone().into_inner().as_str().parse());
+                        let array_len = parse_array_size(next.clone());
                         let ident = ast_unwrap!(iter.next()).as_str().to_string();
                         (array_len, ident)
                     }
@@ -284,9 +286,6 @@ fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
                     val: (r#type, elem),
                 });
             }
-            Rule::COMMENT => {
-                // Currently unsupported for structs due to varying styles
-            }
             r => unreachable!("Unknown rule `{r:?}`"),
         }
     }
@@ -294,7 +293,7 @@ fn parse_struct(pair: Pair<Rule>) -> Rc<Node> {
 }
 
 fn parse_const(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Const {
-    let mut inner = pair.into_inner().skip(1);
+    let mut inner = inner(pair).skip(1);
 
     let ty = ast_unwrap!(inner.next()).as_str();
     let ident = ast_unwrap!(inner.next()).into();
@@ -317,15 +316,13 @@ fn parse_const(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Const {
 fn parse_interface(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Rc<Node> {
     let span = Span::from(pair.as_span());
     let mut interface = pair.into_inner().skip(1);
-    let mut pairs = ast_unwrap!(interface.next()).into_inner();
+    let iname = interface.find(|p| p.as_rule() == Rule::iname);
+    let mut pairs = inner(ast_unwrap!(iname));
     let ident = ast_unwrap!(pairs.next()).as_str().to_string();
-    let base = pairs
-        .next()
-        .filter(|base| base.as_rule() == Rule::ident)
-        .map(|base| Ident {
-            span: base.as_span().into(),
-            ident: base.as_str().to_string(),
-        });
+    let base = pairs.next().map(|base| Ident {
+        span: base.as_span().into(),
+        ident: base.as_str().to_string(),
+    });
 
     let mut iface_nodes = Vec::new();
     let mut comment: Option<Documentation> = None;
@@ -337,7 +334,9 @@ fn parse_interface(pair: Pair<Rule>, allow_undefined_behavior: bool) -> Rc<Node>
                 iface_nodes.push(node);
             }
             Rule::COMMENT => {
-                comment = Documentation::try_from(rule).ok();
+                if let Ok(doc) = Documentation::try_from(rule) {
+                    comment = Some(doc);
+                }
             }
             _ => unreachable!(),
         }
-- 
2.43.0


From f7aa03a39dccfcb3c2d292e899a1288997b29b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 07/30] fix: refuse array sizes outside their range in release
 builds

---
 idlc_ast/src/pst.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index b7d2d12..65c85c4 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -60,7 +60,11 @@ fn inner(pair: Pair<'_, Rule>) -> impl Iterator<Item = Pair<'_, Rule>> {
 }
 
 fn parse_array_size(pair: Pair<'_, Rule>) -> Count {
-    ast_unwrap!(ast_unwrap!(inner(pair).next()).as_str().parse())
+    let size = ast_unwrap!(inner(pair).next()).as_str();
+    let Ok(count) = size.parse() else {
+        idlc_errors::unrecoverable!("Invalid array size '{size}'");
+    };
+    count
 }
 
 impl From<pest::Span<'_>> for Span {
-- 
2.43.0


From e612627ca214c9640d21c9f63c5460b037c4fbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 08/30] fix: walk each included file once

---
 idlc_ast_passes/src/idl_store.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index ec3d3f4..3a6349b 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -9,7 +9,7 @@ use crate::CompilerPass;
 
 use std::{
     cell::RefCell,
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     path::{Path, PathBuf},
     rc::Rc,
 };
@@ -28,6 +28,7 @@ pub struct IDLStore {
     current: Option<PathBuf>,
     cycle: Option<Cycle<String>>,
     graph: Graph<String>,
+    walked: HashSet<PathBuf>,
     include_paths: Vec<PathBuf>,
     allow_undefined_behavior: bool,
 }
@@ -57,7 +58,9 @@ impl Visitor<'_> for IDLStore {
         }
 
         let inc_ast = self.get_or_insert(&cano_path);
-        walk_all(self, &inc_ast);
+        if self.walked.insert(cano_path) {
+            walk_all(self, &inc_ast);
+        }
         self.current = Some(current);
     }
 }
@@ -80,6 +83,7 @@ impl IDLStore {
             current: None,
             cycle: None,
             graph: Graph::new(),
+            walked: HashSet::new(),
             include_paths: include_paths.to_vec(),
             allow_undefined_behavior,
         }
-- 
2.43.0


From bb4153cb20f0b8a91dddb3ffdd6d7500f86b6e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 09/30] fix: resolve bare includes to files only

---
 idlc_ast_passes/src/idl_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idlc_ast_passes/src/idl_store.rs b/idlc_ast_passes/src/idl_store.rs
index 3a6349b..faff4e4 100644
--- a/idlc_ast_passes/src/idl_store.rs
+++ b/idlc_ast_passes/src/idl_store.rs
@@ -129,7 +129,7 @@ impl IDLStore {
 
         for include_path in &self.include_paths {
             let possibility = include_path.join(path);
-            if possibility.exists() {
+            if possibility.is_file() {
                 let canonical = possibility.canonicalize().unwrap();
                 if first.is_none() {
                     first = Some(canonical.clone());
-- 
2.43.0


From ac418acda120badfe354c0b1b5e86044fda46eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 10/30] fix: lay out arguments as input buffers, output
 buffers, input objects, output objects

The order of parameters relied on an ordering of Param which isn't total, and
objects embedded in structs were emitted right behind the struct's buffer
instead of with the other objects of the same direction.
---
 idlc_codegen/src/functions.rs                 | 88 +++++++++++--------
 .../src/interface/functions/implementation.rs | 49 ++++++-----
 .../src/interface/functions/invoke.rs         | 68 +++++++-------
 .../src/interface/functions/implementation.rs | 39 +++-----
 .../src/interface/functions/invoke.rs         | 44 ++--------
 .../src/interface/functions/implementation.rs | 51 +++++++----
 .../src/interface/functions/invoke.rs         | 54 +++++++-----
 7 files changed, 202 insertions(+), 191 deletions(-)

diff --git a/idlc_codegen/src/functions.rs b/idlc_codegen/src/functions.rs
index 313261c..d657d4e 100644
--- a/idlc_codegen/src/functions.rs
+++ b/idlc_codegen/src/functions.rs
@@ -20,6 +20,10 @@ pub trait ParameterVisitor {
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {}
     fn visit_input_object(&mut self, ident: &Ident, ty: Option<&str>) {}
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: Count) {}
+    /// Visited in place of the input objects embedded in the struct `ident`, which
+    /// has itself been visited together with the input buffers. Only
+    /// [`visit_params_with_bundling`] calls this.
+    fn visit_input_struct_objects(&mut self, ident: &Ident, ty: &StructInner) {}
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {}
     fn visit_output_untyped_buffer(&mut self, ident: &Ident) {
@@ -32,6 +36,10 @@ pub trait ParameterVisitor {
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {}
     fn visit_output_object(&mut self, ident: &Ident, ty: Option<&str>) {}
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: Count) {}
+    /// Visited in place of the output objects embedded in the struct `ident`, which
+    /// has itself been visited together with the output buffers. Only
+    /// [`visit_params_with_bundling`] calls this.
+    fn visit_output_struct_objects(&mut self, ident: &Ident, ty: &StructInner) {}
 }
 
 #[derive(Debug)]
@@ -39,6 +47,7 @@ enum Param<'a> {
     InputBundledPrimitives(&'a PackedPrimitives),
     OutputBundledPrimitives(&'a PackedPrimitives),
     Params(&'a idlc_mir::Param),
+    StructObjects(&'a idlc_mir::Param, &'a StructInner),
 }
 
 impl<'a> Param<'a> {
@@ -47,6 +56,10 @@ impl<'a> Param<'a> {
             match param {
                 Param::InputBundledPrimitives(b) => visitor.visit_input_bundled(b),
                 Param::OutputBundledPrimitives(b) => visitor.visit_output_bundled(b),
+                Param::StructObjects(p, s) if p.is_input() => {
+                    visitor.visit_input_struct_objects(p.ident(), s);
+                }
+                Param::StructObjects(p, s) => visitor.visit_output_struct_objects(p.ident(), s),
                 Param::Params(p) => match p {
                     idlc_mir::Param::In { r#type, ident } => match r#type {
                         ParamTypeIn::Array(t, cnt) => match t {
@@ -99,47 +112,50 @@ impl<'a> Param<'a> {
         }
     }
 
+    /// Orders the parameters the way they appear in the argument array: all input
+    /// buffers, all output buffers, all input objects and then all output objects. A
+    /// bundle is the first buffer of its direction, everything else retains the order of
+    /// declaration.
     fn new(params: &'a [idlc_mir::Param], packed_primitives: &'a PackedPrimitives) -> Vec<Self> {
-        let mut out = Vec::new();
-        if packed_primitives.n_inputs() > 1 {
-            out.push(Self::InputBundledPrimitives(packed_primitives));
+        let bundled_input = packed_primitives.n_inputs() > 1;
+        let bundled_output = packed_primitives.n_outputs() > 1;
+
+        let mut input_buffers = Vec::new();
+        let mut output_buffers = Vec::new();
+        let mut input_objects = Vec::new();
+        let mut output_objects = Vec::new();
+
+        if bundled_input {
+            input_buffers.push(Self::InputBundledPrimitives(packed_primitives));
+        }
+        if bundled_output {
+            output_buffers.push(Self::OutputBundledPrimitives(packed_primitives));
         }
-        out.extend(
-            params
-                .iter()
-                .filter(|&x| {
-                    !(packed_primitives.n_inputs() > 1
-                        && x.is_input()
-                        && (x.is_primitive_value() || x.is_small_struct_value()))
-                })
-                .filter(|x| {
-                    !(packed_primitives.n_outputs() > 1
-                        && x.is_output()
-                        && (x.is_primitive_value() || x.is_small_struct_value()))
-                })
-                .map(Param::Params),
-        );
 
-        if packed_primitives.n_outputs() > 1 {
-            let me = idlc_mir::Param::Out {
-                r#type: idlc_mir::ParamTypeOut::Array(Type::Primitive(Primitive::Uint8), None),
-                ident: idlc_mir::Ident::new_without_span(String::new()),
+        for param in params {
+            let (buffers, objects, is_bundled) = if param.is_input() {
+                (&mut input_buffers, &mut input_objects, bundled_input)
+            } else {
+                (&mut output_buffers, &mut output_objects, bundled_output)
             };
-            let idx = out.iter().position(|x| {
-                if let Param::Params(p) = *x {
-                    p >= &me
-                } else {
-                    false
+            match param.r#type() {
+                Type::Interface(_) => objects.push(Self::Params(param)),
+                _ if is_bundled
+                    && (param.is_primitive_value() || param.is_small_struct_value()) => {}
+                Type::Struct(s) if s.as_ref().contains_interfaces() => {
+                    buffers.push(Self::Params(param));
+                    objects.push(Self::StructObjects(param, s.as_ref()));
                 }
-            });
-
-            out.insert(
-                idx.unwrap_or(out.len()),
-                Param::OutputBundledPrimitives(packed_primitives),
-            );
+                _ => buffers.push(Self::Params(param)),
+            }
         }
 
-        out
+        input_buffers
+            .into_iter()
+            .chain(output_buffers)
+            .chain(input_objects)
+            .chain(output_objects)
+            .collect()
     }
 }
 
@@ -150,9 +166,7 @@ pub fn visit_params<V: ParameterVisitor>(function: &Function, visitor: &mut V) {
 
 #[inline]
 pub fn visit_params_with_bundling<V: ParameterVisitor>(function: &Function, visitor: &mut V) {
-    let mut params = function.params.clone();
-    params.sort();
     let packed_primitives = super::serialization::PackedPrimitives::new(function);
-    let with_bundling = Param::new(&params, &packed_primitives);
+    let with_bundling = Param::new(&function.params, &packed_primitives);
     Param::visit(with_bundling.into_iter(), visitor);
 }
diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index 35eb654..d852df9 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -142,26 +142,6 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 r#"
             {{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},"#
             ));
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
-                self.pre_call.push(format!(
-                    r#"{ident}_cpy.{path} = Object_NULL;
-    "#
-                ));
-                self.visit_input_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{ident}_cpy.{}", path),
-                        span: object.0.last().unwrap().span,
-                    },
-                    object.1,
-                );
-            }
         } else {
             self.args.push(format!(
                 r#"
@@ -174,6 +154,28 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.visit_input_big_struct(ident, ty);
     }
 
+    fn visit_input_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        for object in ty.objects() {
+            let path = object
+                .0
+                .iter()
+                .map(|ident| ident.to_string())
+                .collect::<Vec<String>>()
+                .join(".");
+            self.pre_call.push(format!(
+                r#"{ident}_cpy.{path} = Object_NULL;
+    "#
+            ));
+            self.visit_input_object(
+                &idlc_mir::Ident {
+                    ident: format!("{ident}_cpy.{}", path),
+                    span: object.0.last().unwrap().span,
+                },
+                object.1,
+            );
+        }
+    }
+
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
         let _idx = self.idx();
         self.args.push(format!(
@@ -275,8 +277,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             r#"
         {{.b = ({OBJECTBUF}) {{  {name}, sizeof({ty_ident}) }} }},"#
         ));
-        let objects = ty.objects();
-        for object in objects {
+    }
+
+    fn visit_output_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        let name = format!("{}_ptr", ident);
+        for object in ty.objects() {
             let path = object
                 .0
                 .iter()
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index 5db313c..f40d194 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -163,21 +163,6 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 r#" \
                 {ty_ident} {name} = *({CONST} {ty_ident}*){ARGS}[{idx}].b.ptr;"#
             ));
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
-                let idx = self.idx();
-                let field_ident = format!("{name}.{}", path);
-                self.pre.push(format!(
-                    r#" \
-                {field_ident} = {ARGS}[{idx}].o;"#
-                ));
-            }
         } else {
             self.pre.push(format!(
                 r#" \
@@ -189,6 +174,24 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         self.visit_input_big_struct(ident, ty);
     }
 
+    fn visit_input_struct_objects(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
+        let name = format!("{}_ptr", ident);
+        for object in ty.objects() {
+            let path = object
+                .0
+                .iter()
+                .map(|ident| ident.to_string())
+                .collect::<Vec<String>>()
+                .join(".");
+            let idx = self.idx();
+            let field_ident = format!("{name}.{}", path);
+            self.pre.push(format!(
+                r#" \
+                {field_ident} = {ARGS}[{idx}].o;"#
+            ));
+        }
+    }
+
     fn visit_input_object(&mut self, ident: &idlc_mir::Ident, ty: Option<&str>) {
         let idx = self.idx();
         let ty = if self.is_no_typed_objects {
@@ -293,22 +296,6 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
                 r#" \
                 {ty_ident} *{name} = &(*({ty_ident}*){ARGS}[{idx}].b.ptr);"#
             ));
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
-                self.visit_output_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{name}->{}", path),
-                        span: object.0.last().unwrap().span,
-                    },
-                    object.1,
-                );
-            }
         } else {
             self.pre.push(format!(
                 r#" \
@@ -321,6 +308,25 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         self.visit_output_big_struct(ident, ty);
     }
 
+    fn visit_output_struct_objects(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
+        let name = format!("{}_ptr", ident);
+        for object in ty.objects() {
+            let path = object
+                .0
+                .iter()
+                .map(|ident| ident.to_string())
+                .collect::<Vec<String>>()
+                .join(".");
+            self.visit_output_object(
+                &idlc_mir::Ident {
+                    ident: format!("{name}->{}", path),
+                    span: object.0.last().unwrap().span,
+                },
+                object.1,
+            );
+        }
+    }
+
     fn visit_output_primitive(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
         let idx = self.idx();
         let sz = ty.size();
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index c743003..9551c1f 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -78,27 +78,6 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 r#"{{.bi = ({OBJECTBUFIN}) {{ &{ident}_cpy, sizeof({ty_ident}) }} }},
         "#
             ));
-
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join(".");
-                self.0.pre_call.push(format!(
-                    r#"{ident}_cpy.{path} = Object_NULL;
-    "#
-                ));
-                self.visit_input_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{ident}_cpy.{}", path),
-                        span: object.0.last().unwrap().span,
-                    },
-                    object.1,
-                );
-            }
         } else {
             self.0.args.push(format!(
                 r#"
@@ -111,6 +90,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.visit_input_big_struct(ident, ty);
     }
 
+    fn visit_input_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        self.0.visit_input_struct_objects(ident, ty);
+    }
+
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
         let _idx = self.0.idx();
         let name = format!("{}", ident);
@@ -199,9 +182,15 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             r#"
         {{.b = ({OBJECTBUF}) {{  &{name}, sizeof({ty_ident}) }} }},"#
         ));
+    }
 
-        let objects = ty.objects();
-        for object in objects {
+    fn visit_output_small_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        self.visit_output_big_struct(ident, ty);
+    }
+
+    fn visit_output_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        let name = format!("{}_ref", ident);
+        for object in ty.objects() {
             let path = object
                 .0
                 .iter()
@@ -222,10 +211,6 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         }
     }
 
-    fn visit_output_small_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        self.visit_output_big_struct(ident, ty);
-    }
-
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
         let idx = self.0.idx();
         self.0.args.push(
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index e48a7b8..4606170 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -70,6 +70,10 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         self.visit_input_big_struct(ident, ty);
     }
 
+    fn visit_input_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        self.0.visit_input_struct_objects(ident, ty);
+    }
+
     fn visit_input_object(&mut self, ident: &Ident, ty: Option<&str>) {
         let idx = self.0.idx();
         let ty = ty.unwrap_or("ProxyBase").to_string();
@@ -134,47 +138,17 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        // self.0.visit_output_big_struct(ident, ty);
-        let idx = self.0.idx();
-        let name = format!("{}_ptr", ident);
-        let sz = ty.size();
-        let ty_ident = ty.ident.to_string();
-        self.0.args.push(format!("{ARGS}[{idx}].b.size != {sz}"));
-        if ty.contains_interfaces() {
-            let name = format!("{}_ptr", ident);
-            self.0.pre.push(format!(
-                r#" \
-                {ty_ident} *{name} = &(*({ty_ident}*){ARGS}[{idx}].b.ptr);"#
-            ));
-
-            let objects = ty.objects();
-            for object in objects {
-                let path = object
-                    .0
-                    .iter()
-                    .map(|ident| ident.to_string())
-                    .collect::<Vec<String>>()
-                    .join("->");
-                self.0.visit_output_object(
-                    &idlc_mir::Ident {
-                        ident: format!("{name}->{}", path),
-                        span: object.0.last().unwrap().span,
-                    },
-                    object.1,
-                );
-            }
-        } else {
-            self.0.pre.push(format!(
-                r#" \
-                {ty_ident} *{name} = ({ty_ident}*){ARGS}[{idx}].b.ptr;"#
-            ));
-        }
+        self.0.visit_output_big_struct(ident, ty);
     }
 
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
         self.visit_output_big_struct(ident, ty);
     }
 
+    fn visit_output_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        self.0.visit_output_struct_objects(ident, ty);
+    }
+
     fn visit_output_object(&mut self, ident: &Ident, ty: Option<&str>) {
         let idx = self.0.idx();
         let ty = ty.unwrap_or("ProxyBase").to_string();
diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index 5d486aa..b2a4f41 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -54,6 +54,11 @@ impl Implementation {
 }
 
 impl Implementation {
+    fn assume_init(&mut self, ident: &EscapedIdent) {
+        self.post_call
+            .push(format!("let {ident} = unsafe {{ {ident}.assume_init() }};"));
+    }
+
     fn generate_input_buffer(&mut self, ident: &Ident) {
         let ident = EscapedIdent::new(ident);
         self.args.push(format!(
@@ -159,10 +164,19 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 }}
             }}"#
             ));
-            for (object, _) in objects {
-                let path = super::signature::idents_to_struct_path(&object);
-                self.args.push(format!(
-                    r#"{ARG} {{
+        }
+    }
+
+    fn visit_input_small_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        self.visit_input_big_struct(ident, ty);
+    }
+
+    fn visit_input_struct_objects(&mut self, ident: &Ident, r#struct: &idlc_mir::StructInner) {
+        let escaped_ident = EscapedIdent::new(ident);
+        for (object, _) in r#struct.objects() {
+            let path = super::signature::idents_to_struct_path(&object);
+            self.args.push(format!(
+                r#"{ARG} {{
                 o: std::mem::ManuallyDrop::new(unsafe {{
                     let ptr = &mut (*{escaped_ident}.get()){path};
                     let obj = std::mem::ManuallyDrop::new(std::ptr::read(ptr));
@@ -171,15 +185,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                     std::mem::transmute_copy(&obj)
                 }})
             }}"#
-                ));
-            }
+            ));
         }
     }
 
-    fn visit_input_small_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        self.visit_input_big_struct(ident, ty);
-    }
-
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
         let ident = EscapedIdent::new(ident);
         self.args.push(format!(
@@ -267,8 +276,18 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             }}"#
         ));
 
-        let objects = r#struct.objects();
-        for (object, _) in objects {
+        if !r#struct.contains_interfaces() {
+            self.assume_init(&escaped_ident);
+        }
+    }
+
+    fn visit_output_small_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
+        self.visit_output_big_struct(ident, ty);
+    }
+
+    fn visit_output_struct_objects(&mut self, ident: &Ident, r#struct: &idlc_mir::StructInner) {
+        let escaped_ident = EscapedIdent::new(ident);
+        for (object, _) in r#struct.objects() {
             let path = super::signature::idents_to_struct_path(&object);
             let idx = self.args.len();
             self.post_call.push(format!(
@@ -281,13 +300,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
             self.add_output_object();
         }
-        self.post_call.push(format!(
-            "let {escaped_ident} = unsafe {{ {escaped_ident}.assume_init() }};"
-        ));
-    }
-
-    fn visit_output_small_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        self.visit_output_big_struct(ident, ty);
+        self.assume_init(&escaped_ident);
     }
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index 11ff7cf..6089ba2 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -18,6 +18,9 @@ pub struct Invoke {
     pre: Vec<String>,
     post: Vec<String>,
 
+    /// Argument indices of the output structs whose objects are yet to be visited.
+    struct_indices: Vec<usize>,
+
     idx: usize,
 }
 
@@ -145,20 +148,24 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             self.pre.push(format!(
                 "let mut {ident} = std::mem::ManuallyDrop::new(std::ptr::read({ARGS}[{idx}].bi.ptr.cast::<{ty}>()));"
             ));
-            for (object, _) in objects {
-                let path = super::signature::idents_to_struct_path(&object);
-                let idx = self.idx();
-                self.pre.push(format!(
-                    "std::ptr::write(&mut {ident}{path}, std::mem::transmute_copy(&{ARGS}[{idx}].o));"
-                ));
-            }
-            self.pre.push(format!("let {ident} = &{ident};"))
         }
     }
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.visit_input_big_struct(ident, ty);
     }
 
+    fn visit_input_struct_objects(&mut self, ident: &Ident, r#struct: &StructInner) {
+        let ident = EscapedIdent::new(ident);
+        for (object, _) in r#struct.objects() {
+            let path = super::signature::idents_to_struct_path(&object);
+            let idx = self.idx();
+            self.pre.push(format!(
+                "std::ptr::write(&mut {ident}{path}, std::mem::transmute_copy(&{ARGS}[{idx}].o));"
+            ));
+        }
+        self.pre.push(format!("let {ident} = &{ident};"))
+    }
+
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
         let idx = self.idx();
         let ident = EscapedIdent::new(ident);
@@ -201,27 +208,34 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             self.post
                 .push(format!("*{ARGS}[{idx}].b.ptr.cast::<{ty}>() = {ident};\n"));
         } else {
-            let struct_idx = idx;
             self.post.push(format!(
                 "let mut {ident} = std::mem::ManuallyDrop::new({ident});"
             ));
-            for (object, _) in objects {
-                let idx = self.idx();
-                let path = super::signature::idents_to_struct_path(&object);
-                self.post.push(format!("{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}{path}.take()));"));
-                self.post.push(format!(
-                    "std::ptr::write(std::ptr::addr_of_mut!({ident}{path}), std::mem::zeroed());"
-                ));
-            }
-            self.post.push(format!(
-                "std::ptr::write({ARGS}[{struct_idx}].b.ptr.cast::<{ty}>(), std::mem::transmute_copy(&{ident}));"
-            ));
+            self.struct_indices.push(idx);
         }
     }
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.visit_output_big_struct(ident, ty);
     }
 
+    fn visit_output_struct_objects(&mut self, ident: &Ident, r#struct: &StructInner) {
+        let ident = EscapedIdent::new(ident);
+        let ty = &namespaced_struct(r#struct);
+        for (object, _) in r#struct.objects() {
+            let idx = self.idx();
+            let path = super::signature::idents_to_struct_path(&object);
+            self.post.push(format!("{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}{path}.take()));"));
+            self.post.push(format!(
+                "std::ptr::write(std::ptr::addr_of_mut!({ident}{path}), std::mem::zeroed());"
+            ));
+        }
+        // The structs are visited in the same order as the objects they contain.
+        let struct_idx = self.struct_indices.remove(0);
+        self.post.push(format!(
+            "std::ptr::write({ARGS}[{struct_idx}].b.ptr.cast::<{ty}>(), std::mem::transmute_copy(&{ident}));"
+        ));
+    }
+
     fn visit_output_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         let ty = change_primitive(ty);
         let ident = EscapedIdent::new(ident);
-- 
2.43.0


From a9fdad6c10bad0b1dc347754ddc63fcd69c57f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 11/30] fix: never bundle structs containing objects

Small structs were bundled or sent as plain data including the handles of the
objects they contain.
---
 idlc_mir/src/mir.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index c72aa59..540331d 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -133,7 +133,8 @@ impl StructField {
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub enum Struct {
     /// This variant of struct can be bundled with other primitives as it's
-    /// guaranteed to be less than [`Struct::BUNDLED_SIZE_MAX`] bytes long.
+    /// guaranteed to be at most [`Struct::BUNDLED_SIZE_MAX`] bytes long and to be free
+    /// of objects, which never travel inside of a data buffer.
     Small(StructInner),
     Big(StructInner),
 }
@@ -156,8 +157,8 @@ impl Struct {
     pub const BUNDLED_SIZE_MAX: usize = 16;
 
     #[inline]
-    pub const fn new(inner: StructInner, size: usize) -> Self {
-        if size <= Self::BUNDLED_SIZE_MAX {
+    pub fn new(inner: StructInner, size: usize) -> Self {
+        if size <= Self::BUNDLED_SIZE_MAX && inner.is_primitive_struct() {
             Self::Small(inner)
         } else {
             Self::Big(inner)
-- 
2.43.0


From 30ffc290a7bbd84b24e66cff19cbe6062c31bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 12/30] fix: marshal every object embedded in a struct

Two members of the same struct type were both attributed to the last one of
them, and only the first element of arrays was taken into account.
---
 idlc_codegen/src/counts.rs                    |  4 +-
 .../src/interface/functions/implementation.rs | 26 ++-----
 .../src/interface/functions/invoke.rs         | 22 ++----
 .../src/interface/functions/implementation.rs | 13 +---
 .../src/interface/functions/implementation.rs | 12 +--
 .../src/interface/functions/invoke.rs         | 14 ++--
 .../src/interface/functions/signature.rs      |  6 --
 idlc_mir/src/mir.rs                           | 75 ++++++++++++++-----
 8 files changed, 90 insertions(+), 82 deletions(-)

diff --git a/idlc_codegen/src/counts.rs b/idlc_codegen/src/counts.rs
index 75a25b4..e1dba7e 100644
--- a/idlc_codegen/src/counts.rs
+++ b/idlc_codegen/src/counts.rs
@@ -42,7 +42,7 @@ impl super::functions::ParameterVisitor for Counter {
     #[inline]
     fn visit_input_big_struct(&mut self, _: &Ident, s: &StructInner) {
         self.input_buffers += 1;
-        self.input_objects += u8::try_from(s.objects().len()).unwrap();
+        self.input_objects += u8::try_from(s.embedded_objects().len()).unwrap();
     }
 
     #[inline]
@@ -79,7 +79,7 @@ impl super::functions::ParameterVisitor for Counter {
     #[inline]
     fn visit_output_big_struct(&mut self, _: &Ident, s: &StructInner) {
         self.output_buffers += 1;
-        self.output_objects += u8::try_from(s.objects().len()).unwrap();
+        self.output_objects += u8::try_from(s.embedded_objects().len()).unwrap();
     }
 
     #[inline]
diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index d852df9..924ba9f 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -155,13 +155,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_input_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
-        for object in ty.objects() {
-            let path = object
-                .0
-                .iter()
-                .map(|ident| ident.to_string())
-                .collect::<Vec<String>>()
-                .join(".");
+        for object in ty.embedded_objects() {
+            let path = &object.path;
             self.pre_call.push(format!(
                 r#"{ident}_cpy.{path} = Object_NULL;
     "#
@@ -169,9 +164,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             self.visit_input_object(
                 &idlc_mir::Ident {
                     ident: format!("{ident}_cpy.{}", path),
-                    span: object.0.last().unwrap().span,
+                    span: path.span,
                 },
-                object.1,
+                object.interface,
             );
         }
     }
@@ -281,13 +276,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_output_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
         let name = format!("{}_ptr", ident);
-        for object in ty.objects() {
-            let path = object
-                .0
-                .iter()
-                .map(|ident| ident.to_string())
-                .collect::<Vec<String>>()
-                .join(".");
+        for object in ty.embedded_objects() {
+            let path = &object.path;
             self.initializations.push(format!(
                 r#"{name}->{path} = Object_NULL;
     "#
@@ -295,9 +285,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             self.visit_output_object(
                 &idlc_mir::Ident {
                     ident: format!("{name}->{}", path),
-                    span: object.0.last().unwrap().span,
+                    span: path.span,
                 },
-                object.1,
+                object.interface,
             )
         }
     }
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index f40d194..2dc2416 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -176,13 +176,8 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_input_struct_objects(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         let name = format!("{}_ptr", ident);
-        for object in ty.objects() {
-            let path = object
-                .0
-                .iter()
-                .map(|ident| ident.to_string())
-                .collect::<Vec<String>>()
-                .join(".");
+        for object in ty.embedded_objects() {
+            let path = &object.path;
             let idx = self.idx();
             let field_ident = format!("{name}.{}", path);
             self.pre.push(format!(
@@ -310,19 +305,14 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_output_struct_objects(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         let name = format!("{}_ptr", ident);
-        for object in ty.objects() {
-            let path = object
-                .0
-                .iter()
-                .map(|ident| ident.to_string())
-                .collect::<Vec<String>>()
-                .join(".");
+        for object in ty.embedded_objects() {
+            let path = &object.path;
             self.visit_output_object(
                 &idlc_mir::Ident {
                     ident: format!("{name}->{}", path),
-                    span: object.0.last().unwrap().span,
+                    span: path.span,
                 },
-                object.1,
+                object.interface,
             );
         }
     }
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index 9551c1f..d284179 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -190,13 +190,8 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_output_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
         let name = format!("{}_ref", ident);
-        for object in ty.objects() {
-            let path = object
-                .0
-                .iter()
-                .map(|ident| ident.to_string())
-                .collect::<Vec<String>>()
-                .join(".");
+        for object in ty.embedded_objects() {
+            let path = &object.path;
             self.0.initializations.push(format!(
                 r#"
     {name}.{path} = Object_NULL;"#
@@ -204,9 +199,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             self.visit_output_object(
                 &idlc_mir::Ident {
                     ident: format!("({name}.{})", path),
-                    span: object.0.last().unwrap().span,
+                    span: path.span,
                 },
-                object.1,
+                object.interface,
             )
         }
     }
diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index b2a4f41..878f926 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -173,12 +173,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_input_struct_objects(&mut self, ident: &Ident, r#struct: &idlc_mir::StructInner) {
         let escaped_ident = EscapedIdent::new(ident);
-        for (object, _) in r#struct.objects() {
-            let path = super::signature::idents_to_struct_path(&object);
+        for object in r#struct.embedded_objects() {
+            let path = &object.path;
             self.args.push(format!(
                 r#"{ARG} {{
                 o: std::mem::ManuallyDrop::new(unsafe {{
-                    let ptr = &mut (*{escaped_ident}.get()){path};
+                    let ptr = &mut (*{escaped_ident}.get()).{path};
                     let obj = std::mem::ManuallyDrop::new(std::ptr::read(ptr));
                     std::ptr::write_volatile(ptr, std::mem::zeroed());
 
@@ -287,12 +287,12 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_output_struct_objects(&mut self, ident: &Ident, r#struct: &idlc_mir::StructInner) {
         let escaped_ident = EscapedIdent::new(ident);
-        for (object, _) in r#struct.objects() {
-            let path = super::signature::idents_to_struct_path(&object);
+        for object in r#struct.embedded_objects() {
+            let path = &object.path;
             let idx = self.args.len();
             self.post_call.push(format!(
                 r#"unsafe {{ std::ptr::write(
-                    std::ptr::addr_of_mut!((*{escaped_ident}.as_mut_ptr()){path}),
+                    std::ptr::addr_of_mut!((*{escaped_ident}.as_mut_ptr()).{path}),
                     std::mem::transmute(std::mem::ManuallyDrop::take(&mut {ARGS}[{idx}].o))
                 ); }}
             "#
diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index 6089ba2..76037eb 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -156,11 +156,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_input_struct_objects(&mut self, ident: &Ident, r#struct: &StructInner) {
         let ident = EscapedIdent::new(ident);
-        for (object, _) in r#struct.objects() {
-            let path = super::signature::idents_to_struct_path(&object);
+        for object in r#struct.embedded_objects() {
+            let path = &object.path;
             let idx = self.idx();
             self.pre.push(format!(
-                "std::ptr::write(&mut {ident}{path}, std::mem::transmute_copy(&{ARGS}[{idx}].o));"
+                "std::ptr::write(&mut {ident}.{path}, std::mem::transmute_copy(&{ARGS}[{idx}].o));"
             ));
         }
         self.pre.push(format!("let {ident} = &{ident};"))
@@ -221,12 +221,12 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_output_struct_objects(&mut self, ident: &Ident, r#struct: &StructInner) {
         let ident = EscapedIdent::new(ident);
         let ty = &namespaced_struct(r#struct);
-        for (object, _) in r#struct.objects() {
+        for object in r#struct.embedded_objects() {
             let idx = self.idx();
-            let path = super::signature::idents_to_struct_path(&object);
-            self.post.push(format!("{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}{path}.take()));"));
+            let path = &object.path;
+            self.post.push(format!("{ARGS}[{idx}].o = std::mem::ManuallyDrop::new(std::mem::transmute({ident}.{path}.take()));"));
             self.post.push(format!(
-                "std::ptr::write(std::ptr::addr_of_mut!({ident}{path}), std::mem::zeroed());"
+                "std::ptr::write(std::ptr::addr_of_mut!({ident}.{path}), std::mem::zeroed());"
             ));
         }
         // The structs are visited in the same order as the objects they contain.
diff --git a/idlc_codegen_rust/src/interface/functions/signature.rs b/idlc_codegen_rust/src/interface/functions/signature.rs
index f1c35d1..4499ec4 100644
--- a/idlc_codegen_rust/src/interface/functions/signature.rs
+++ b/idlc_codegen_rust/src/interface/functions/signature.rs
@@ -29,12 +29,6 @@ pub fn iter_to_string(iter: impl Iterator<Item = impl AsRef<str>>) -> String {
     acc
 }
 
-pub fn idents_to_struct_path(objects: &[&Ident]) -> String {
-    objects
-        .iter()
-        .fold(String::new(), |acc, x| acc + "." + x.as_ref())
-}
-
 impl Signature {
     pub fn new(function: &idlc_mir::Function) -> Self {
         let mut me = Self::default();
diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index 540331d..d2c284e 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -28,7 +28,7 @@ use idlc_ast::Ast;
 pub use idlc_ast::Ident;
 use idlc_ast_passes::idl_store::IDLStore;
 
-use std::collections::{HashMap, VecDeque};
+use std::collections::VecDeque;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 
@@ -181,34 +181,73 @@ pub struct StructInner {
     pub origin: Option<PathBuf>,
 }
 
+/// An object which is a member of a struct or of one of the structs contained in it.
+#[derive(Debug, Clone, PartialEq, Eq)]
+pub struct EmbeddedObject<'a> {
+    /// Expression that selects the object within the struct, such as `inner.objs[1]`.
+    pub path: Ident,
+    pub interface: Option<&'a str>,
+}
+
 impl StructInner {
     #[inline]
     pub fn size(&self) -> usize {
         self.fields.iter().fold(0, |acc, e| acc + e.size())
     }
 
+    /// Paths of the objects within the struct, elements of arrays aren't listed separately.
     pub fn objects(&self) -> Vec<(Vec<&Ident>, Option<&str>)> {
-        let mut queue = VecDeque::new();
-        let mut parents = HashMap::new();
+        let mut queue = VecDeque::from([(self, Vec::new())]);
+        let mut objects = Vec::new();
+
+        while let Some((node, parents)) = queue.pop_front() {
+            for field in &node.fields {
+                let mut path = parents.clone();
+                path.push(&field.ident);
+                match &field.val.0 {
+                    Type::Struct(s) => queue.push_back((s.as_ref(), path)),
+                    Type::Interface(interface) => objects.push((path, interface.as_deref())),
+                    _ => (),
+                }
+            }
+        }
+
+        objects
+    }
+
+    /// Every single object within the struct in the order they're marshalled.
+    pub fn embedded_objects(&self) -> Vec<EmbeddedObject<'_>> {
+        let mut queue = VecDeque::from([(self, String::new())]);
         let mut objects = Vec::new();
-        queue.push_back(self);
 
-        while let Some(node) = queue.pop_front() {
+        while let Some((node, parents)) = queue.pop_front() {
             for field in &node.fields {
-                let (ty, _) = &field.val;
-                if let Type::Struct(s) = ty {
-                    parents.insert(s.as_ref(), (node, Some(&field.ident)));
-                    queue.push_back(s.as_ref());
-                } else if let Type::Interface(interface) = ty {
-                    // Reconstruct path information.
-                    let mut path = vec![&field.ident];
-                    let mut current = node;
-                    while let Some((parent, Some(parent_ident))) = parents.get(current) {
-                        path.push(*parent_ident);
-                        current = parent;
+                let (ty, count) = &field.val;
+                let has_objects = match ty {
+                    Type::Struct(s) => s.as_ref().contains_interfaces(),
+                    Type::Interface(_) => true,
+                    _ => false,
+                };
+                if !has_objects {
+                    continue;
+                }
+                for i in 0..count.get() {
+                    let mut path = parents.clone();
+                    if !path.is_empty() {
+                        path.push('.');
+                    }
+                    path.push_str(&field.ident);
+                    if count.get() > 1 {
+                        path.push_str(&format!("[{i}]"));
+                    }
+                    match ty {
+                        Type::Struct(s) => queue.push_back((s.as_ref(), path)),
+                        Type::Interface(interface) => objects.push(EmbeddedObject {
+                            path: Ident::new(path, field.ident.span),
+                            interface: interface.as_deref(),
+                        }),
+                        _ => unreachable!(),
                     }
-                    path.reverse();
-                    objects.push((path, interface.as_deref()));
                 }
             }
         }
-- 
2.43.0


From 2c52c954169f624e8686c0bc6e4890a9703e5f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 13/30] fix: reject methods whose arguments exceed the limits
 of an invocation

Counts above 15 overflowed into the neighbouring field of the counts word.
---
 idlc_mir/src/mir.rs                       | 56 +++++++++++++++++++++++
 idlc_mir_passes/src/interface_verifier.rs | 16 ++++++-
 2 files changed, 71 insertions(+), 1 deletion(-)

diff --git a/idlc_mir/src/mir.rs b/idlc_mir/src/mir.rs
index d2c284e..3c8b16b 100644
--- a/idlc_mir/src/mir.rs
+++ b/idlc_mir/src/mir.rs
@@ -215,6 +215,19 @@ impl StructInner {
         objects
     }
 
+    /// Number of objects within the struct including the elements of arrays.
+    pub fn object_count(&self) -> usize {
+        self.fields.iter().fold(0usize, |acc, field| {
+            let (ty, count) = &field.val;
+            let objects = match ty {
+                Type::Struct(s) => s.as_ref().object_count(),
+                Type::Interface(_) => 1,
+                _ => 0,
+            };
+            acc.saturating_add(objects.saturating_mul(usize::from(count.get())))
+        })
+    }
+
     /// Every single object within the struct in the order they're marshalled.
     pub fn embedded_objects(&self) -> Vec<EmbeddedObject<'_>> {
         let mut queue = VecDeque::from([(self, String::new())]);
@@ -465,6 +478,49 @@ pub struct Function {
 }
 
 impl Function {
+    /// Largest number of arguments of a kind the counts of an invocation can express.
+    pub const MAX_ARGS_PER_KIND: usize = 15;
+
+    /// Number of input buffers, output buffers, input objects and output objects of an
+    /// invocation.
+    pub fn argument_counts(&self) -> [usize; 4] {
+        let mut buffers = [0usize; 2];
+        let mut bundled = [0usize; 2];
+        let mut objects = [0usize; 2];
+        for param in &self.params {
+            let direction = usize::from(param.is_output());
+            let count = match param {
+                Param::In {
+                    r#type: ParamTypeIn::Array(_, count),
+                    ident: _,
+                }
+                | Param::Out {
+                    r#type: ParamTypeOut::Array(_, count),
+                    ident: _,
+                } => *count,
+                _ => None,
+            };
+            if let Type::Interface(_) = param.r#type() {
+                objects[direction] += count.map_or(1, |count| usize::from(count.get()));
+            } else if param.is_primitive_value() || param.is_small_struct_value() {
+                bundled[direction] = 1;
+            } else {
+                buffers[direction] += 1;
+                if let Type::Struct(s) = param.r#type() {
+                    objects[direction] =
+                        objects[direction].saturating_add(s.as_ref().object_count());
+                }
+            }
+        }
+
+        [
+            buffers[0] + bundled[0],
+            buffers[1] + bundled[1],
+            objects[0],
+            objects[1],
+        ]
+    }
+
     pub fn is_optional(&self) -> bool {
         self.attributes
             .contains(&idlc_ast::FunctionAttribute::Optional)
diff --git a/idlc_mir_passes/src/interface_verifier.rs b/idlc_mir_passes/src/interface_verifier.rs
index 7d48dcc..5bee71d 100644
--- a/idlc_mir_passes/src/interface_verifier.rs
+++ b/idlc_mir_passes/src/interface_verifier.rs
@@ -5,7 +5,7 @@ use std::collections::HashSet;
 
 use crate::MirCompilerPass;
 
-use idlc_mir::{InterfaceNode, Node, ParamTypeIn, ParamTypeOut, Struct, Type};
+use idlc_mir::{Function, InterfaceNode, Node, ParamTypeIn, ParamTypeOut, Struct, Type};
 
 pub struct InterfaceVerifier<'mir> {
     mir: &'mir idlc_mir::Mir,
@@ -40,6 +40,20 @@ impl<'mir> MirCompilerPass<'_> for InterfaceVerifier<'mir> {
                         InterfaceNode::Function(f) => {
                             functions.add_ident(&f.ident, from);
 
+                            for (count, kind) in f.argument_counts().into_iter().zip([
+                                "input buffers",
+                                "output buffers",
+                                "input objects",
+                                "output objects",
+                            ]) {
+                                if count > Function::MAX_ARGS_PER_KIND {
+                                    idlc_errors::unrecoverable!(
+                                        "Interface `{}`, method `{}` has {count} {kind}, at most {} can be passed",
+                                        from.ident, f.ident, Function::MAX_ARGS_PER_KIND
+                                    );
+                                }
+                            }
+
                             let mut args_array_in = false;
                             let mut args_value_in = false;
                             let mut args_array_out = false;
-- 
2.43.0


From a23a283da21aeb519dec7bcff4138d7cc352e677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 14/30] fix: don't overflow the number of bundled parameters

More than 255 of them panicked in debug builds and wrapped around otherwise.
---
 idlc_codegen/src/counts.rs                            | 4 ++--
 idlc_codegen_c/src/interface/functions/signature.rs   | 4 ++--
 idlc_codegen_cpp/src/interface/functions/signature.rs | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/idlc_codegen/src/counts.rs b/idlc_codegen/src/counts.rs
index e1dba7e..1f203bf 100644
--- a/idlc_codegen/src/counts.rs
+++ b/idlc_codegen/src/counts.rs
@@ -9,8 +9,8 @@ pub struct Counter {
     pub input_objects: u8,
     pub output_objects: u8,
     pub output_buffers: u8,
-    pub total_bundled_input: u8,
-    pub total_bundled_output: u8,
+    pub total_bundled_input: usize,
+    pub total_bundled_output: usize,
 
     has_bundled_input: bool,
     has_bundled_output: bool,
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 5247ad5..9ff3415 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -14,8 +14,8 @@ pub struct Signature {
     bundled_outputs: Vec<String>,
     input_obj_arg: Vec<String>,
 
-    total_bundled_input: u8,
-    total_bundled_output: u8,
+    total_bundled_input: usize,
+    total_bundled_output: usize,
     is_no_typed_objects: bool,
 }
 
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index 6d83820..a21e694 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -15,8 +15,8 @@ pub struct Signature {
     input_obj_arg: Vec<String>,
     output_obj_arg: Vec<String>,
 
-    total_bundled_input: u8,
-    total_bundled_output: u8,
+    total_bundled_input: usize,
+    total_bundled_output: usize,
 }
 
 impl Signature {
-- 
2.43.0


From 4307b90c3dcb81e9fef5cbe6ac33716d555e40c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 15/30] fix: don't adopt outputs of failed calls in C stubs

---
 idlc_codegen_c/src/interface/functions/implementation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index 924ba9f..09f8b70 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -387,7 +387,10 @@ static inline int32_t {current_iface_ident}_{ident}(Object self{params})
             "".to_string()
         },
         if !post_call_assignments.is_empty() {
-            post_call_assignments.to_string()
+            format!(
+                r#"    if (Object_OK != result) {{ return result; }}
+{post_call_assignments}"#
+            )
         } else {
             "".to_string()
         }
-- 
2.43.0


From 20ed2c0d28a508f79cf0236d45c906817e112d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 16/30] fix: pack bundles whose members aren't naturally
 aligned

---
 idlc_codegen/src/serialization.rs             | 40 +++++++++++++++++++
 .../src/interface/functions/invoke.rs         | 29 ++++++++++++++
 .../src/interface/functions/serialization.rs  | 12 +++++-
 .../src/interface/functions/signature.rs      | 35 +++++++++++++---
 .../src/interface/functions/serialization.rs  | 12 +++++-
 .../src/interface/functions/signature.rs      | 39 +++++++++++++++---
 6 files changed, 152 insertions(+), 15 deletions(-)

diff --git a/idlc_codegen/src/serialization.rs b/idlc_codegen/src/serialization.rs
index f1a0adb..fccba8f 100644
--- a/idlc_codegen/src/serialization.rs
+++ b/idlc_codegen/src/serialization.rs
@@ -13,6 +13,25 @@ impl Type {
             Self::SmallStruct(s) => s.size(),
         }
     }
+
+    /// Alignment of this type in the target languages.
+    pub fn alignment(&self) -> usize {
+        fn struct_alignment(s: &idlc_mir::StructInner) -> usize {
+            s.fields
+                .iter()
+                .map(|field| match &field.val.0 {
+                    idlc_mir::Type::Primitive(p) => p.size(),
+                    idlc_mir::Type::Struct(s) => struct_alignment(s.as_ref()),
+                    idlc_mir::Type::UntypedBuffer | idlc_mir::Type::Interface(_) => 1,
+                })
+                .max()
+                .unwrap_or(1)
+        }
+        match self {
+            Self::Primitive(p) => p.size(),
+            Self::SmallStruct(s) => struct_alignment(s),
+        }
+    }
 }
 impl PartialOrd<Self> for Type {
     #[inline]
@@ -165,4 +184,25 @@ impl PackedPrimitives {
     pub const fn packed_output_size(&self) -> usize {
         self.output_size
     }
+
+    /// Is there an input that doesn't sit at its natural alignment in the bundle?
+    #[must_use]
+    pub fn has_misaligned_input(&self) -> bool {
+        Self::has_misaligned(&self.inputs)
+    }
+
+    /// Is there an output that doesn't sit at its natural alignment in the bundle?
+    #[must_use]
+    pub fn has_misaligned_output(&self) -> bool {
+        Self::has_misaligned(&self.outputs)
+    }
+
+    fn has_misaligned(pairs: &[Pair]) -> bool {
+        let mut offset = 0;
+        pairs.iter().any(|pair| {
+            let is_misaligned = offset % pair.ty.alignment() != 0;
+            offset += pair.ty.size();
+            is_misaligned
+        })
+    }
 }
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index 2dc2416..b928c45 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -1,6 +1,8 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+use idlc_codegen::serialization::Type;
+
 use crate::{
     interface::variable_names::invoke::{ARGS, BI, BO, CONST, OP},
     types::change_primitive,
@@ -150,6 +152,17 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             r#" \
                 {CONST} {definition} *i = (const struct {BI}*){ARGS}[{idx}].b.ptr;"#
         ));
+        if packed_primitives.has_misaligned_input() {
+            for (ident, ty) in packed_primitives.inputs_by_idents() {
+                if let Type::SmallStruct(s) = ty {
+                    let ty = &s.ident;
+                    self.pre.push(format!(
+                        r#" \
+                {CONST} {ty} {ident}_cpy = i->m_{ident};"#
+                    ));
+                }
+            }
+        }
     }
 
     fn visit_input_big_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
@@ -346,6 +359,22 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             r#" \
                 {definition} *o = (struct {BO}*){ARGS}[{idx}].b.ptr;"#
         ));
+        if packed_primitives.has_misaligned_output() {
+            for (ident, ty) in packed_primitives.outputs_by_idents() {
+                let ty = match ty {
+                    &Type::Primitive(p) => change_primitive(p),
+                    Type::SmallStruct(s) => s.ident.as_ref(),
+                };
+                self.pre.push(format!(
+                    r#" \
+                {ty} {ident}_cpy = o->m_{ident};"#
+                ));
+                self.post.push(format!(
+                    r#" \
+                o->m_{ident} = {ident}_cpy;"#
+                ));
+            }
+        }
     }
 
     fn visit_output_object(&mut self, ident: &idlc_mir::Ident, ty: Option<&str>) {
diff --git a/idlc_codegen_c/src/interface/functions/serialization.rs b/idlc_codegen_c/src/interface/functions/serialization.rs
index 2cc462d..75f5a9f 100644
--- a/idlc_codegen_c/src/interface/functions/serialization.rs
+++ b/idlc_codegen_c/src/interface/functions/serialization.rs
@@ -30,6 +30,7 @@ impl<'a> PackedPrimitives<'a> {
             self.0.inputs_by_idents(),
             self.0.packed_input_size(),
             BI,
+            self.0.has_misaligned_input(),
             is_invoke,
         )
     }
@@ -77,6 +78,7 @@ impl<'a> PackedPrimitives<'a> {
             self.0.outputs_by_idents(),
             self.0.packed_output_size(),
             BO,
+            self.0.has_misaligned_output(),
             is_invoke,
         )
     }
@@ -154,6 +156,7 @@ impl<'a> PackedPrimitives<'a> {
         pairs: impl Iterator<Item = (&'a idlc_mir::Ident, &'a Type)>,
         size: usize,
         in_out: &str,
+        is_misaligned: bool,
         is_invoke: bool,
     ) -> Option<TransportBuffer> {
         if size == 0 {
@@ -188,15 +191,20 @@ impl<'a> PackedPrimitives<'a> {
             }
         }
         initialization.pop();
+        let attribute = if is_misaligned {
+            " __attribute__((packed))"
+        } else {
+            ""
+        };
         let definition = if is_invoke {
             format!(
                 r#"struct {in_out} {{ \{fields}
-                }}"#
+                }}{attribute}"#
             )
         } else {
             format!(
                 r#"struct {in_out} {{{fields}
-    }}"#
+    }}{attribute}"#
             )
         };
         Some(TransportBuffer {
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 9ff3415..c5107fb 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -16,6 +16,8 @@ pub struct Signature {
 
     total_bundled_input: usize,
     total_bundled_output: usize,
+    is_misaligned_input: bool,
+    is_misaligned_output: bool,
     is_no_typed_objects: bool,
 }
 
@@ -54,6 +56,8 @@ impl Signature {
             input_obj_arg: vec![],
             total_bundled_input: counts.total_bundled_input,
             total_bundled_output: counts.total_bundled_output,
+            is_misaligned_input: false,
+            is_misaligned_output: false,
             is_no_typed_objects,
         };
 
@@ -63,6 +67,9 @@ impl Signature {
         me.bundled_inputs = packed_input.map(|ident| ident.to_string()).collect();
         me.bundled_outputs = packed_output.map(|ident| ident.to_string()).collect();
 
+        me.is_misaligned_input = packed_primitives.has_misaligned_input();
+        me.is_misaligned_output = packed_primitives.has_misaligned_output();
+
         idlc_codegen::functions::visit_params(function, &mut me);
 
         me
@@ -82,6 +89,24 @@ impl Signature {
     pub fn return_idents(&self) -> impl Iterator<Item = &str> {
         self.outputs.iter().map(|(ident, _)| ident.as_str())
     }
+
+    /// The aligned location of a bundled struct input.
+    fn bundled_input(&self, ident: &Ident) -> String {
+        if self.is_misaligned_input {
+            format!("&{ident}_cpy")
+        } else {
+            format!("&i->m_{ident}")
+        }
+    }
+
+    /// The aligned location of a bundled output.
+    fn bundled_output(&self, ident: &Ident) -> String {
+        if self.is_misaligned_output {
+            format!("&{ident}_cpy")
+        } else {
+            format!("&o->m_{ident}")
+        }
+    }
 }
 
 impl idlc_codegen::functions::ParameterVisitor for Signature {
@@ -158,7 +183,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_inputs.len() > 1
         {
             self.outputs
-                .push((format!("&i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((self.bundled_input(ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("&{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -175,7 +200,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_inputs.len() > 1
         {
             self.outputs
-                .push((format!("&i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((self.bundled_input(ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("&{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -264,7 +289,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.len() > 1
         {
             self.outputs
-                .push((format!("&o->m_{}", ident), change_primitive(ty).to_string()));
+                .push((self.bundled_output(ident), change_primitive(ty).to_string()));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), change_primitive(ty).to_string()));
@@ -279,7 +304,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.len() > 1
         {
             self.outputs
-                .push((format!("&o->m_{}", ident), ty.ident.to_string()));
+                .push((self.bundled_output(ident), ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), ty.ident.to_string()));
@@ -293,7 +318,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             && self.bundled_outputs.len() > 1
         {
             self.outputs
-                .push((format!("&o->m_{}", ident), ty.ident.to_string()));
+                .push((self.bundled_output(ident), ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), ty.ident.to_string()));
diff --git a/idlc_codegen_cpp/src/interface/functions/serialization.rs b/idlc_codegen_cpp/src/interface/functions/serialization.rs
index c90d1e9..3a4177f 100644
--- a/idlc_codegen_cpp/src/interface/functions/serialization.rs
+++ b/idlc_codegen_cpp/src/interface/functions/serialization.rs
@@ -30,6 +30,7 @@ impl<'a> PackedPrimitives<'a> {
             self.0.inputs_by_idents(),
             self.0.packed_input_size(),
             BI,
+            self.0.has_misaligned_input(),
             is_invoke,
         )
     }
@@ -84,6 +85,7 @@ impl<'a> PackedPrimitives<'a> {
             self.0.outputs_by_idents(),
             self.0.packed_output_size(),
             BO,
+            self.0.has_misaligned_output(),
             is_invoke,
         )
     }
@@ -113,6 +115,7 @@ impl<'a> PackedPrimitives<'a> {
         pairs: impl Iterator<Item = (&'a idlc_mir::Ident, &'a Type)>,
         size: usize,
         in_out: &str,
+        is_misaligned: bool,
         is_invoke: bool,
     ) -> Option<TransportBuffer> {
         if size == 0 {
@@ -147,15 +150,20 @@ impl<'a> PackedPrimitives<'a> {
             }
         }
         initialization.pop();
+        let attribute = if is_misaligned {
+            " __attribute__((packed))"
+        } else {
+            ""
+        };
         let definition = if is_invoke {
             format!(
                 r#"struct {in_out} {{ \{fields}
-                }}"#
+                }}{attribute}"#
             )
         } else {
             format!(
                 r#"struct {in_out} {{{fields}
-    }}"#
+    }}{attribute}"#
             )
         };
         Some(TransportBuffer {
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index a21e694..2afa335 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -17,6 +17,8 @@ pub struct Signature {
 
     total_bundled_input: usize,
     total_bundled_output: usize,
+    is_misaligned_input: bool,
+    is_misaligned_output: bool,
 }
 
 impl Signature {
@@ -30,6 +32,8 @@ impl Signature {
             output_obj_arg: vec![],
             total_bundled_input: counts.total_bundled_input,
             total_bundled_output: counts.total_bundled_output,
+            is_misaligned_input: false,
+            is_misaligned_output: false,
         };
 
         let packed_primitives = idlc_codegen::serialization::PackedPrimitives::new(function);
@@ -38,6 +42,9 @@ impl Signature {
         me.bundled_inputs = packed_input.map(|ident| ident.to_string()).collect();
         me.bundled_outputs = packed_output.map(|ident| ident.to_string()).collect();
 
+        me.is_misaligned_input = packed_primitives.has_misaligned_input();
+        me.is_misaligned_output = packed_primitives.has_misaligned_output();
+
         idlc_codegen::functions::visit_params(function, &mut me);
 
         me
@@ -53,6 +60,24 @@ impl Signature {
     pub fn return_idents(&self) -> impl Iterator<Item = &str> {
         self.outputs.iter().map(|(ident, _)| ident.as_str())
     }
+
+    /// The aligned location of a bundled struct input.
+    fn bundled_input(&self, ident: &Ident) -> String {
+        if self.is_misaligned_input {
+            format!("{ident}_cpy")
+        } else {
+            format!("i->m_{ident}")
+        }
+    }
+
+    /// The aligned location of a bundled output.
+    fn bundled_output(&self, ident: &Ident) -> String {
+        if self.is_misaligned_output {
+            format!("{ident}_cpy")
+        } else {
+            format!("o->m_{ident}")
+        }
+    }
 }
 
 impl idlc_codegen::functions::ParameterVisitor for Signature {
@@ -119,7 +144,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
         if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((self.bundled_input(ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -133,7 +158,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), format!("{CONST} {}", ty.ident)));
         if self.total_bundled_input > 1 && self.bundled_inputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("i->m_{}", ident), format!("{CONST} {}", ty.ident)));
+                .push((self.bundled_input(ident), format!("{CONST} {}", ty.ident)));
         } else if ty.contains_interfaces() {
             self.outputs
                 .push((format!("{}_ptr", ident), format!("{CONST} {}", ty.ident)));
@@ -213,8 +238,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs
             .push((format!("*{}_ptr", ident), change_primitive(ty).to_string()));
         if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
-            self.outputs
-                .push((format!("&o->m_{}", ident), change_primitive(ty).to_string()));
+            self.outputs.push((
+                format!("&{}", self.bundled_output(ident)),
+                change_primitive(ty).to_string(),
+            ));
         } else {
             self.outputs
                 .push((format!("{}_ptr", ident), change_primitive(ty).to_string()));
@@ -226,7 +253,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), ty.ident.to_string()));
         if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("o->m_{}", ident), ty.ident.to_string()));
+                .push((self.bundled_output(ident), ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), ty.ident.to_string()));
@@ -237,7 +264,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
             .push((format!("&{}_ref", ident), ty.ident.to_string()));
         if self.total_bundled_output > 1 && self.bundled_outputs.contains(&ident.to_string()) {
             self.outputs
-                .push((format!("o->m_{}", ident), ty.ident.to_string()));
+                .push((self.bundled_output(ident), ty.ident.to_string()));
         } else {
             self.outputs
                 .push((format!("*{}_ptr", ident), ty.ident.to_string()));
-- 
2.43.0


From f71d2d05c706d1ff37ea6b12672c8d5be3f7c60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 17/30] fix: emit C++ that compiles for untyped object arrays
 and deep inheritance

---
 idlc_codegen_c/src/interface/functions/invoke.rs     |  4 ++--
 idlc_codegen_c/src/interface/functions/signature.rs  |  4 ++--
 idlc_codegen_cpp/src/interface/functions/invoke.rs   | 12 ++++++------
 .../src/interface/functions/signature.rs             |  6 +++---
 idlc_codegen_cpp/src/interface/mod.rs                |  6 +++---
 5 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index b928c45..e6f0c02 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -119,7 +119,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         }
         self.pre.push(format!(
             r#" \
-                const {ty} {ident}[{cnt}] = {{ {objs} }};"#,
+                const {ty} p_{ident}[{cnt}] = {{ {objs} }};"#,
         ));
     }
 
@@ -266,7 +266,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
-        let name = format!("{}", ident);
+        let name = format!("p_{}", ident);
         let ty = if self.is_no_typed_objects {
             "Object".to_string()
         } else {
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index c5107fb..7f1c871 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -157,7 +157,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((name, ty));
         self.input_obj_arg.push(format!("{}_len", ident));
         self.outputs
-            .push((format!("&{}", ident), "size_t".to_string()));
+            .push((format!("&p_{}", ident), "size_t".to_string()));
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: Primitive) {
@@ -278,7 +278,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         };
         self.inputs.push((name, ty));
         self.outputs
-            .push((format!("&{}", ident), "size_t".to_string()));
+            .push((format!("&p_{}", ident), "size_t".to_string()));
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
diff --git a/idlc_codegen_cpp/src/interface/functions/invoke.rs b/idlc_codegen_cpp/src/interface/functions/invoke.rs
index 4606170..da4aafa 100644
--- a/idlc_codegen_cpp/src/interface/functions/invoke.rs
+++ b/idlc_codegen_cpp/src/interface/functions/invoke.rs
@@ -40,14 +40,14 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let mut obj_args = String::new();
         for _ in 0..cnt.into() {
             let idx = self.0.idx();
-            obj_args.push_str(&format!(r"a[{idx}].o,"));
+            obj_args.push_str(&format!(r"{ty}({ARGS}[{idx}].o),"));
         }
         self.0.pre.push(format!(
             r#" \
-                const union {ident} {{
-                    ~{ident}() {{}}
+                const union u_{ident} {{
+                    ~u_{ident}() {{}}
                     {ty} inner[{cnt}];
-                }} {ident} = {{.inner= {{ {obj_args} }}}};"#,
+                }} p_{ident} = {{.inner= {{ {obj_args} }}}};"#,
         ));
     }
 
@@ -110,7 +110,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         let mut obj_assign = String::new();
         for i in 0..cnt.into() {
             let idx = self.0.idx();
-            objs.push_str("Object_NULL, ");
+            objs.push_str(&format!("{ty}(Object_NULL), "));
             obj_assign.push_str(&format!(
                 r#"
                 {ARGS}[{idx}].o=p_{ident}[{i}].extract();"#
@@ -210,7 +210,7 @@ pub fn emit(
                     break;
                 }}
 {pre}
-                int32_t r = {ident}({return_idents});
+                int32_t r = this->{ident}({return_idents});
 {post}
                 return r;
             }}"#
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index 2afa335..00265cc 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -120,11 +120,11 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(&{}_ref)[{cnt}]", ident);
-        let ty = format!("{CONST} {}", ty.unwrap_or("Object"));
+        let ty = format!("{CONST} {}", ty.unwrap_or("ProxyBase"));
         self.inputs.push((name, ty));
         self.input_obj_arg.push(format!("{}_len", ident));
         self.outputs
-            .push((format!("{}.inner", ident), "size_t".to_string()));
+            .push((format!("p_{}.inner", ident), "size_t".to_string()));
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: Primitive) {
@@ -227,7 +227,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("(&{}_ref)[{cnt}]", ident);
-        let ty = ty.unwrap_or("Object").to_string();
+        let ty = ty.unwrap_or("ProxyBase").to_string();
         self.inputs.push((name, ty));
         self.output_obj_arg.push(format!("{}_len", ident));
         self.outputs
diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index 419ffca..3721905 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -19,7 +19,6 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
 
     // need to have all of the base-class functions, error-codes and const values
     interface.iter().skip(1).for_each(|iface| {
-        base_iface.push_str(&format!("I{} ", &iface.ident.to_string()));
         iface.nodes.iter().for_each(|node| match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
@@ -108,8 +107,9 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
         }
     }
 
-    if !base_iface.is_empty() {
-        base_iface = format!(": public {base_iface}");
+    // the bases of the base are inherited through it
+    if let Some(base) = &interface.base {
+        base_iface = format!(": public I{} ", base.ident);
     }
 
     format!(
-- 
2.43.0


From eea2bcf12d4166f6c91b9eef13e2f8b4fb252d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 18/30] fix: don't let object parameters shadow the generated
 variables

---
 .../src/interface/functions/implementation.rs | 37 +++++++-------
 .../src/interface/functions/invoke.rs         | 39 ++++++---------
 .../src/interface/functions/signature.rs      |  7 +--
 .../src/interface/functions/implementation.rs | 48 +++++++------------
 .../src/interface/functions/signature.rs      |  8 ++--
 5 files changed, 58 insertions(+), 81 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/implementation.rs b/idlc_codegen_c/src/interface/functions/implementation.rs
index 09f8b70..56d53e7 100644
--- a/idlc_codegen_c/src/interface/functions/implementation.rs
+++ b/idlc_codegen_c/src/interface/functions/implementation.rs
@@ -156,18 +156,16 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_input_struct_objects(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
         for object in ty.embedded_objects() {
+            let _idx = self.idx();
             let path = &object.path;
             self.pre_call.push(format!(
                 r#"{ident}_cpy.{path} = Object_NULL;
     "#
             ));
-            self.visit_input_object(
-                &idlc_mir::Ident {
-                    ident: format!("{ident}_cpy.{}", path),
-                    span: path.span,
-                },
-                object.interface,
-            );
+            self.args.push(format!(
+                r#"
+        {{.o = {ident}_cpy.{path} }},"#
+            ));
         }
     }
 
@@ -175,7 +173,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let _idx = self.idx();
         self.args.push(format!(
             r#"
-        {{.o = {ident} }},"#
+        {{.o = {ident}_val }},"#
         ));
     }
 
@@ -282,13 +280,16 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 r#"{name}->{path} = Object_NULL;
     "#
             ));
-            self.visit_output_object(
-                &idlc_mir::Ident {
-                    ident: format!("{name}->{}", path),
-                    span: path.span,
-                },
-                object.interface,
-            )
+            let idx = self.idx();
+            self.post_call.push(format!(
+                r#"
+    {name}->{path} = {ARGS}[{idx}].o;"#
+            ));
+            self.args.push(
+                r#"
+        {.o = Object_NULL },"#
+                    .to_string(),
+            );
         }
     }
 
@@ -298,13 +299,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
         let idx = self.idx();
-        let mut name = format!("{ident}");
-        if !ident.contains("->") {
-            name = format!("*{name}");
-        }
         self.post_call.push(format!(
             r#"
-    {name} = {ARGS}[{idx}].o;"#
+    *{ident}_ptr = {ARGS}[{idx}].o;"#
         ));
         self.args.push(
             r#"
diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index e6f0c02..3fc19b2 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -319,14 +319,17 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_output_struct_objects(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         let name = format!("{}_ptr", ident);
         for object in ty.embedded_objects() {
+            let idx = self.idx();
             let path = &object.path;
-            self.visit_output_object(
-                &idlc_mir::Ident {
-                    ident: format!("{name}->{}", path),
-                    span: path.span,
-                },
-                object.interface,
-            );
+            self.pre.push(format!(
+                r#" \
+                {name}->{path} = {ARGS}[{idx}].o;"#
+            ));
+            self.post.push(format!(
+                r#" \
+                {ARGS}[{idx}].o = {name}->{path}; \
+                {name}->{path} = Object_NULL;"#
+            ));
         }
     }
 
@@ -379,29 +382,15 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_output_object(&mut self, ident: &idlc_mir::Ident, ty: Option<&str>) {
         let idx = self.idx();
-        let mut name = format!("{ident}");
         let ty = if self.is_no_typed_objects {
             "Object".to_string()
         } else {
             ty.unwrap_or("Object").to_string()
         };
-        if !ident.contains("->") && !ident.contains('.') {
-            name = format!("*{name}");
-            self.pre.push(format!(
-                r#" \
-                {ty} {name} = &{ARGS}[{idx}].o;"#
-            ));
-        } else {
-            self.pre.push(format!(
-                r#" \
-                {name} = {ARGS}[{idx}].o;"#
-            ));
-            self.post.push(format!(
-                r#" \
-                {ARGS}[{idx}].o = {name}; \
-                {name} = Object_NULL;"#
-            ));
-        }
+        self.pre.push(format!(
+            r#" \
+                {ty} *p_{ident} = &{ARGS}[{idx}].o;"#
+        ));
     }
 }
 
diff --git a/idlc_codegen_c/src/interface/functions/signature.rs b/idlc_codegen_c/src/interface/functions/signature.rs
index 7f1c871..0dc7097 100644
--- a/idlc_codegen_c/src/interface/functions/signature.rs
+++ b/idlc_codegen_c/src/interface/functions/signature.rs
@@ -216,7 +216,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         } else {
             ty.unwrap_or("Object")
         };
-        self.inputs.push((format!("{ident}"), ty.to_string()));
+        self.inputs.push((format!("{ident}_val"), ty.to_string()));
         self.outputs
             .push((format!("*{}_ptr", ident), ty.to_string()));
     }
@@ -331,7 +331,8 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         } else {
             ty.unwrap_or("Object")
         };
-        self.inputs.push((format!("*{}", ident), ty.to_string()));
-        self.outputs.push((format!("{}", ident), ty.to_string()));
+        self.inputs
+            .push((format!("*{}_ptr", ident), ty.to_string()));
+        self.outputs.push((format!("p_{}", ident), ty.to_string()));
     }
 }
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index d284179..d62332c 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -96,18 +96,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
         let _idx = self.0.idx();
-        let name = format!("{}", ident);
-        if name.contains('.') {
-            self.0.args.push(format!(
-                r#"
-        {{.o = {name} }},"#
-            ));
-        } else {
-            self.0.args.push(format!(
-                r#"
-        {{.o = {name}.get() }},"#
-            ));
-        }
+        self.0.args.push(format!(
+            r#"
+        {{.o = {ident}_ref.get() }},"#
+        ));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
@@ -196,13 +188,16 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
                 r#"
     {name}.{path} = Object_NULL;"#
             ));
-            self.visit_output_object(
-                &idlc_mir::Ident {
-                    ident: format!("({name}.{})", path),
-                    span: path.span,
-                },
-                object.interface,
-            )
+            let idx = self.0.idx();
+            self.0.args.push(
+                r#"
+        {.o = (Object) { NULL, NULL } },"#
+                    .to_string(),
+            );
+            self.0.post_call.push(format!(
+                r#"
+    {name}.{path} = {ARGS}[{idx}].o;"#
+            ));
         }
     }
 
@@ -213,17 +208,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         {.o = (Object) { NULL, NULL } },"#
                 .to_string(),
         );
-        if ident.contains('.') || ident.contains("->") {
-            self.0.post_call.push(format!(
-                r#"
-    {ident} = {ARGS}[{idx}].o;"#
-            ));
-        } else {
-            self.0.post_call.push(format!(
-                r#"
-    {ident}.consume({ARGS}[{idx}].o);"#
-            ));
-        }
+        self.0.post_call.push(format!(
+            r#"
+    {ident}_ref.consume({ARGS}[{idx}].o);"#
+        ));
     }
 }
 
diff --git a/idlc_codegen_cpp/src/interface/functions/signature.rs b/idlc_codegen_cpp/src/interface/functions/signature.rs
index 00265cc..c74ca59 100644
--- a/idlc_codegen_cpp/src/interface/functions/signature.rs
+++ b/idlc_codegen_cpp/src/interface/functions/signature.rs
@@ -170,7 +170,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
 
     fn visit_input_object(&mut self, ident: &Ident, ty: Option<&str>) {
         self.inputs.push((
-            format!("&{}", ident),
+            format!("&{}_ref", ident),
             format!("{CONST} {}", ty.unwrap_or("ProxyBase")),
         ));
         self.outputs
@@ -272,8 +272,10 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     }
 
     fn visit_output_object(&mut self, ident: &Ident, ty: Option<&str>) {
-        self.inputs
-            .push((format!("&{}", ident), ty.unwrap_or("ProxyBase").to_string()));
+        self.inputs.push((
+            format!("&{}_ref", ident),
+            ty.unwrap_or("ProxyBase").to_string(),
+        ));
         self.outputs
             .push((format!("p_{}", ident), ty.unwrap_or("Object").to_string()));
     }
-- 
2.43.0


From f2bc9ea250d07e0fdf2e009466c7b2a6e20d5214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 19/30] fix: read hexadecimal float constants as numbers

---
 idlc_ast/src/ast.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/idlc_ast/src/ast.rs b/idlc_ast/src/ast.rs
index f9f1ee8..e76e2d2 100644
--- a/idlc_ast/src/ast.rs
+++ b/idlc_ast/src/ast.rs
@@ -295,6 +295,17 @@ impl Primitive {
                 i64::from_str_radix(value, radix)?;
                 Ok(Self::Int64)
             }
+            "float32" | "float64" if radix == 16 => {
+                let magnitude = value.strip_prefix('-').unwrap_or(value);
+                let magnitude = u128::from_str_radix(magnitude, radix)?;
+                if r#type == "float64" {
+                    return Ok(Self::Float64);
+                }
+                if (magnitude as f32).is_infinite() {
+                    return Err(Error::FloatIsInfinite);
+                }
+                Ok(Self::Float32)
+            }
             "float32" => {
                 if value.parse::<f32>()?.is_infinite() {
                     return Err(Error::FloatIsInfinite);
-- 
2.43.0


From 4183672dab3f3a45dba5eb75bb5c90702ddc631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 20/30] fix: write constants as every target language reads
 them

---
 idlc_codegen/src/constant.rs           | 51 ++++++++++++++++++++++++++
 idlc_codegen/src/lib.rs                |  1 +
 idlc_codegen_c/src/globals.rs          |  7 ++--
 idlc_codegen_c/src/interface/mod.rs    | 12 +++---
 idlc_codegen_c/src/types.rs            | 24 ++++++++++--
 idlc_codegen_cpp/src/generator.rs      | 12 +-----
 idlc_codegen_cpp/src/interface/mod.rs  | 31 ++++++++++------
 idlc_codegen_java/src/globals.rs       |  6 +--
 idlc_codegen_java/src/interface/mod.rs |  6 +--
 idlc_codegen_java/src/types.rs         | 28 ++++++++++++++
 idlc_codegen_rust/src/globals.rs       |  2 +-
 11 files changed, 138 insertions(+), 42 deletions(-)
 create mode 100644 idlc_codegen/src/constant.rs

diff --git a/idlc_codegen/src/constant.rs b/idlc_codegen/src/constant.rs
new file mode 100644
index 0000000..e55abe7
--- /dev/null
+++ b/idlc_codegen/src/constant.rs
@@ -0,0 +1,51 @@
+// Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
+// SPDX-License-Identifier: BSD-3-Clause
+
+use idlc_mir::{Const, Primitive};
+
+/// Value of an integer constant.
+pub fn integer(constant: &Const) -> Option<i128> {
+    let (negative, magnitude) = split_sign(constant);
+    let value = match magnitude.strip_prefix("0x") {
+        Some(digits) => i128::from_str_radix(digits, 16),
+        None => magnitude.parse(),
+    };
+
+    value.ok().map(|v| if negative { -v } else { v })
+}
+
+/// Literal of a constant in a form which all the target languages read as the value it has in IDL,
+/// that is, without leading zeros (these make it octal) and with a fraction if it's a float.
+pub fn literal(constant: &Const) -> String {
+    let is_float = matches!(constant.r#type, Primitive::Float32 | Primitive::Float64);
+    let (negative, magnitude) = split_sign(constant);
+    let sign = if negative { "-" } else { "" };
+
+    if let Some(digits) = magnitude.strip_prefix("0x") {
+        return match u128::from_str_radix(digits, 16) {
+            Ok(value) if is_float => format!("{sign}{value}.0"),
+            _ => constant.value.clone(),
+        };
+    }
+
+    let digits = magnitude.trim_start_matches('0');
+    let zero = if digits.is_empty() || digits.starts_with('.') {
+        "0"
+    } else {
+        ""
+    };
+    let fraction = if is_float && !digits.contains('.') {
+        ".0"
+    } else {
+        ""
+    };
+
+    format!("{sign}{zero}{digits}{fraction}")
+}
+
+fn split_sign(constant: &Const) -> (bool, &str) {
+    match constant.value.strip_prefix('-') {
+        Some(magnitude) => (true, magnitude),
+        None => (false, &constant.value),
+    }
+}
diff --git a/idlc_codegen/src/lib.rs b/idlc_codegen/src/lib.rs
index 43b40af..aea2e72 100644
--- a/idlc_codegen/src/lib.rs
+++ b/idlc_codegen/src/lib.rs
@@ -1,6 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+pub mod constant;
 pub mod counts;
 pub mod documentation;
 pub mod functions;
diff --git a/idlc_codegen_c/src/globals.rs b/idlc_codegen_c/src/globals.rs
index c73fbe9..f8cbddd 100644
--- a/idlc_codegen_c/src/globals.rs
+++ b/idlc_codegen_c/src/globals.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Const, StructInner};
 
-use crate::types::{change_const_primitive, change_primitive};
+use crate::types::{change_primitive, const_value};
 
 pub fn emit_include(include: &std::path::Path) -> String {
     let inc_name = include.display().to_string().replace(".idl", "");
@@ -35,8 +35,7 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
 
 pub fn emit_const(r#const: &Const) -> String {
     let ident = r#const.ident.to_string();
-    let ty = change_const_primitive(r#const.r#type);
-    let value = &r#const.value;
+    let value = const_value(r#const);
 
-    format!("#define {ident} {ty}({value})\n\n")
+    format!("#define {ident} {value}\n\n")
 }
diff --git a/idlc_codegen_c/src/interface/mod.rs b/idlc_codegen_c/src/interface/mod.rs
index 5e00404..0717139 100644
--- a/idlc_codegen_c/src/interface/mod.rs
+++ b/idlc_codegen_c/src/interface/mod.rs
@@ -6,7 +6,7 @@ use idlc_mir::{Interface, InterfaceNode};
 pub mod functions;
 pub mod variable_names;
 
-use crate::types::change_const_primitive;
+use crate::types::const_value;
 
 pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) -> String {
     let ident = interface.ident.to_string();
@@ -21,11 +21,10 @@ pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) ->
         iface.nodes.iter().for_each(|node| match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
-                    "#define {}_{} {}({})\n",
+                    "#define {}_{} {}\n",
                     ident,
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_value(c)
                 ));
             }
             InterfaceNode::Error(e) => {
@@ -59,11 +58,10 @@ pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) ->
         match node {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
-                    "#define {}_{} {}({})\n",
+                    "#define {}_{} {}\n",
                     ident,
                     c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+                    const_value(c)
                 ));
             }
             InterfaceNode::Error(e) => {
diff --git a/idlc_codegen_c/src/types.rs b/idlc_codegen_c/src/types.rs
index 1c7c2de..1c51547 100644
--- a/idlc_codegen_c/src/types.rs
+++ b/idlc_codegen_c/src/types.rs
@@ -1,7 +1,26 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-pub const fn change_const_primitive(primitive: idlc_mir::Primitive) -> &'static str {
+/// Expression for the value of a constant.
+pub fn const_value(constant: &idlc_mir::Const) -> String {
+    let literal = idlc_codegen::constant::literal(constant);
+    let integer = idlc_codegen::constant::integer(constant);
+
+    match (constant.r#type, integer) {
+        (idlc_mir::Primitive::Float32, _) => format!("{literal}f"),
+        (idlc_mir::Primitive::Float64, _) => literal,
+        // C doesn't have negative literals and the magnitude of these doesn't fit in the type
+        (idlc_mir::Primitive::Int32, Some(value)) if value == i32::MIN.into() => {
+            format!("(-INT32_C({}) - 1)", i32::MAX)
+        }
+        (idlc_mir::Primitive::Int64, Some(value)) if value == i64::MIN.into() => {
+            format!("(-INT64_C({}) - 1)", i64::MAX)
+        }
+        (ty, _) => format!("{}({literal})", change_const_primitive(ty)),
+    }
+}
+
+const fn change_const_primitive(primitive: idlc_mir::Primitive) -> &'static str {
     match primitive {
         idlc_mir::Primitive::Uint8 => "UINT8_C",
         idlc_mir::Primitive::Uint16 => "UINT16_C",
@@ -11,8 +30,7 @@ pub const fn change_const_primitive(primitive: idlc_mir::Primitive) -> &'static
         idlc_mir::Primitive::Int16 => "INT16_C",
         idlc_mir::Primitive::Int32 => "INT32_C",
         idlc_mir::Primitive::Int64 => "INT64_C",
-        idlc_mir::Primitive::Float32 => "FLOAT",
-        idlc_mir::Primitive::Float64 => "DOUBLE",
+        idlc_mir::Primitive::Float32 | idlc_mir::Primitive::Float64 => "",
     }
 }
 
diff --git a/idlc_codegen_cpp/src/generator.rs b/idlc_codegen_cpp/src/generator.rs
index db09835..38e3129 100644
--- a/idlc_codegen_cpp/src/generator.rs
+++ b/idlc_codegen_cpp/src/generator.rs
@@ -2,10 +2,9 @@
 // SPDX-License-Identifier: BSD-3-Clause
 
 use idlc_codegen_c::globals::emit_struct;
-use idlc_codegen_c::types::{change_const_primitive, change_primitive};
 use idlc_mir::Node;
 
-use crate::interface::{emit_interface_impl, emit_interface_invoke};
+use crate::interface::{emit_const, emit_interface_impl, emit_interface_invoke};
 
 use idlc_codegen::MINKIDL_HEADER_COMMENT;
 pub struct Generator;
@@ -22,14 +21,7 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
                     result.push_str(&format!("#include \"{}.hpp\"\n", inc_name));
                 }
                 Node::Const(c) => {
-                    let ident = c.ident.to_string();
-                    let cnt_ty = change_primitive(c.r#type);
-                    let ty = change_const_primitive(c.r#type);
-                    let value = &c.value;
-
-                    result.push_str(&format!(
-                        "static const {cnt_ty} {ident} = {ty}({value});\n\n"
-                    ));
+                    result.push_str(&format!("{};\n\n", emit_const(c)));
                 }
                 Node::Struct(s) => {
                     result.push_str(&emit_struct(s.as_ref()));
diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index 3721905..85dcd6e 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -5,7 +5,22 @@ use idlc_mir::{Interface, InterfaceNode};
 
 mod functions;
 
-use idlc_codegen_c::types::{change_const_primitive, change_primitive};
+use idlc_codegen_c::types::{change_primitive, const_value};
+
+pub fn emit_const(constant: &idlc_mir::Const) -> String {
+    // floats can only be initialized in a class if they're `constexpr`
+    let qualifier = match constant.r#type {
+        idlc_mir::Primitive::Float32 | idlc_mir::Primitive::Float64 => "constexpr",
+        _ => "const",
+    };
+
+    format!(
+        "static {qualifier} {} {} = {}",
+        change_primitive(constant.r#type),
+        constant.ident,
+        const_value(constant)
+    )
+}
 
 pub fn emit_interface_impl(interface: &Interface) -> String {
     let ident = interface.ident.to_string();
@@ -23,11 +38,8 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
                     r#"
-    static const {} {} = {}({});"#,
-                    change_primitive(c.r#type),
-                    c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+    {};"#,
+                    emit_const(c)
                 ));
             }
             InterfaceNode::Error(e) => {
@@ -60,11 +72,8 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
             InterfaceNode::Const(c) => {
                 constants.push_str(&format!(
                     r#"
-    static const {} {} = {}({});"#,
-                    change_primitive(c.r#type),
-                    c.ident,
-                    change_const_primitive(c.r#type),
-                    c.value
+    {};"#,
+                    emit_const(c)
                 ));
             }
             InterfaceNode::Error(e) => {
diff --git a/idlc_codegen_java/src/globals.rs b/idlc_codegen_java/src/globals.rs
index f6aec73..3d630bd 100644
--- a/idlc_codegen_java/src/globals.rs
+++ b/idlc_codegen_java/src/globals.rs
@@ -3,7 +3,7 @@
 
 use idlc_mir::{Const, StructInner};
 
-use crate::types::change_primitive;
+use crate::types::{change_const_primitive, change_primitive, const_value};
 
 pub fn emit_struct(r#struct: &StructInner) -> String {
     let mut contents = String::new();
@@ -44,8 +44,8 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
 
 pub fn emit_const(r#const: &Const) -> String {
     let ident = r#const.ident.to_string(); // Const ident should be uppercase, but leave it for now for backward compatibility.
-    let ty = change_primitive(r#const.r#type);
-    let value = &r#const.value;
+    let ty = change_const_primitive(r#const.r#type);
+    let value = const_value(r#const);
 
     format!(
         r#"{ty} {ident} = {value};
diff --git a/idlc_codegen_java/src/interface/mod.rs b/idlc_codegen_java/src/interface/mod.rs
index ea30fcd..3d7b069 100644
--- a/idlc_codegen_java/src/interface/mod.rs
+++ b/idlc_codegen_java/src/interface/mod.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use crate::types::change_primitive;
+use crate::types::{change_const_primitive, const_value};
 
 use idlc_mir::{Interface, InterfaceNode};
 
@@ -23,8 +23,8 @@ pub fn emit_interface(interface: &Interface, input_name: &str) -> String {
         iface.nodes.iter().for_each(|node| match node {
             InterfaceNode::Const(r#const) => {
                 let const_ident = r#const.ident.to_uppercase();
-                let ty = change_primitive(r#const.r#type);
-                let value = &r#const.value;
+                let ty = change_const_primitive(r#const.r#type);
+                let value = const_value(r#const);
                 constants.push_str(&format!(
                     r#"{ty} {ident}_{const_ident} = {value};
     "#
diff --git a/idlc_codegen_java/src/types.rs b/idlc_codegen_java/src/types.rs
index a7bcf58..4de3bb0 100644
--- a/idlc_codegen_java/src/types.rs
+++ b/idlc_codegen_java/src/types.rs
@@ -15,6 +15,34 @@ pub const fn change_primitive(primitive: idlc_mir::Primitive) -> &'static str {
     }
 }
 
+/// Type of a constant, unlike [`change_primitive`] this keeps the signedness of `int16`.
+pub const fn change_const_primitive(primitive: idlc_mir::Primitive) -> &'static str {
+    match primitive {
+        idlc_mir::Primitive::Int16 => "short",
+        primitive => change_primitive(primitive),
+    }
+}
+
+/// Literal for the value of a constant, the values of unsigned types which Java doesn't have are
+/// represented by the signed value with the same bits.
+pub fn const_value(constant: &idlc_mir::Const) -> String {
+    let literal = idlc_codegen::constant::literal(constant);
+    let Some(value) = idlc_codegen::constant::integer(constant) else {
+        return match constant.r#type {
+            idlc_mir::Primitive::Float32 => format!("{literal}f"),
+            _ => literal,
+        };
+    };
+
+    match constant.r#type {
+        idlc_mir::Primitive::Uint8 if value > i8::MAX.into() => (value as i8).to_string(),
+        idlc_mir::Primitive::Uint32 if value > i32::MAX.into() => (value as i32).to_string(),
+        idlc_mir::Primitive::Uint64 | idlc_mir::Primitive::Int64 => format!("{}L", value as i64),
+        idlc_mir::Primitive::Float32 => format!("{literal}f"),
+        _ => literal,
+    }
+}
+
 pub fn capitalize_first_letter(s: &str) -> String {
     if s == "byte" {
         return "".to_string();
diff --git a/idlc_codegen_rust/src/globals.rs b/idlc_codegen_rust/src/globals.rs
index 65ee441..e2db162 100644
--- a/idlc_codegen_rust/src/globals.rs
+++ b/idlc_codegen_rust/src/globals.rs
@@ -55,7 +55,7 @@ pub struct {ident} {{
 pub fn emit_const(r#const: &Const) -> String {
     let ident = r#const.ident.to_uppercase();
     let ty = change_primitive(r#const.r#type);
-    let value = &r#const.value;
+    let value = idlc_codegen::constant::literal(r#const);
 
     format!("pub const {ident}: {ty} = {value};\n")
 }
-- 
2.43.0


From 6bdb596edb50e2de25a6fc2633756c303758ea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:41 +0000
Subject: [PATCH 21/30] fix: declare C and C++ types before their uses

IDL declarations may precede the ones they refer to. Emit structs and
constants in dependency order, declare all object types up front, and define
the methods of the C++ proxies after all classes.
---
 idlc_codegen/src/lib.rs                       |  1 +
 idlc_codegen/src/order.rs                     | 78 +++++++++++++++++++
 idlc_codegen_c/src/generator.rs               | 16 +++-
 idlc_codegen_c/src/interface/mod.rs           | 12 ++-
 idlc_codegen_cpp/src/generator.rs             | 18 ++++-
 .../src/interface/functions/implementation.rs | 34 ++++++--
 idlc_codegen_cpp/src/interface/mod.rs         | 41 ++++++++--
 7 files changed, 173 insertions(+), 27 deletions(-)
 create mode 100644 idlc_codegen/src/order.rs

diff --git a/idlc_codegen/src/lib.rs b/idlc_codegen/src/lib.rs
index aea2e72..ddfe038 100644
--- a/idlc_codegen/src/lib.rs
+++ b/idlc_codegen/src/lib.rs
@@ -6,6 +6,7 @@ pub mod counts;
 pub mod documentation;
 pub mod functions;
 pub mod marking;
+pub mod order;
 pub mod serialization;
 
 // TODO: Remove this when we indeed start banning idents matching reserved keywords
diff --git a/idlc_codegen/src/order.rs b/idlc_codegen/src/order.rs
new file mode 100644
index 0000000..7205b91
--- /dev/null
+++ b/idlc_codegen/src/order.rs
@@ -0,0 +1,78 @@
+// Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
+// SPDX-License-Identifier: BSD-3-Clause
+
+//! IDLs can use declarations before they are declared, the C family cannot.
+
+use std::rc::Rc;
+
+use idlc_mir::{Node, Type};
+
+/// Nodes of an IDL ordered such that includes precede structs and constants which precede interfaces,
+/// structs succeed the structs they contain and interfaces their base. Other than that the order is
+/// kept.
+pub fn declaration_order(nodes: &[Rc<Node>]) -> Vec<&Node> {
+    let mut visited = vec![false; nodes.len()];
+    let mut ordered = Vec::new();
+
+    let turns: [fn(&Node) -> bool; 3] = [is_include, is_data, is_interface];
+    for is_turn in turns {
+        for (idx, node) in nodes.iter().enumerate() {
+            if is_turn(node) {
+                visit(idx, nodes, &mut visited, &mut ordered);
+            }
+        }
+    }
+
+    ordered
+}
+
+fn is_include(node: &Node) -> bool {
+    matches!(node, Node::Include(_))
+}
+
+fn is_data(node: &Node) -> bool {
+    matches!(node, Node::Const(_) | Node::Struct(_))
+}
+
+fn is_interface(node: &Node) -> bool {
+    matches!(node, Node::Interface(_))
+}
+
+fn visit<'a>(idx: usize, nodes: &'a [Rc<Node>], visited: &mut [bool], ordered: &mut Vec<&'a Node>) {
+    if visited[idx] {
+        return;
+    }
+    visited[idx] = true;
+
+    for dependency in dependencies(&nodes[idx]) {
+        let declared = nodes.iter().position(|node| declares(node, dependency));
+        if let Some(declared) = declared {
+            visit(declared, nodes, visited, ordered);
+        }
+    }
+    ordered.push(nodes[idx].as_ref());
+}
+
+fn dependencies(node: &Node) -> Vec<&str> {
+    match node {
+        Node::Struct(s) => s
+            .as_ref()
+            .fields
+            .iter()
+            .filter_map(|field| match &field.val.0 {
+                Type::Struct(s) => Some(s.as_ref().ident.as_ref()),
+                _ => None,
+            })
+            .collect(),
+        Node::Interface(i) => i.base.iter().map(|base| base.ident.as_ref()).collect(),
+        Node::Include(_) | Node::Const(_) => vec![],
+    }
+}
+
+fn declares(node: &Node, ident: &str) -> bool {
+    match node {
+        Node::Struct(s) => s.as_ref().ident.as_ref() == ident,
+        Node::Interface(i) => i.ident.as_ref() == ident,
+        Node::Include(_) | Node::Const(_) => false,
+    }
+}
diff --git a/idlc_codegen_c/src/generator.rs b/idlc_codegen_c/src/generator.rs
index b34dbbb..9882d30 100644
--- a/idlc_codegen_c/src/generator.rs
+++ b/idlc_codegen_c/src/generator.rs
@@ -3,11 +3,11 @@
 
 use idlc_mir::Node;
 
-use idlc_codegen::MINKIDL_HEADER_COMMENT;
+use idlc_codegen::{order::declaration_order, MINKIDL_HEADER_COMMENT};
 
 use crate::{
     globals::{emit_const, emit_include, emit_struct},
-    interface::{emit_interface_impl, emit_interface_invoke},
+    interface::{emit_interface_impl, emit_interface_invoke, emit_interface_type},
 };
 
 pub struct Generator {
@@ -27,8 +27,16 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
         let mut result = String::new();
         result.push_str(&generate_common());
 
-        for node in &mir.nodes {
-            match node.as_ref() {
+        if !self.is_no_typed_objects {
+            for node in &mir.nodes {
+                if let Node::Interface(i) = node.as_ref() {
+                    result.push_str(&emit_interface_type(i));
+                }
+            }
+        }
+
+        for node in declaration_order(&mir.nodes) {
+            match node {
                 Node::Include(i) => {
                     result.push_str(&emit_include(i));
                 }
diff --git a/idlc_codegen_c/src/interface/mod.rs b/idlc_codegen_c/src/interface/mod.rs
index 0717139..ee7162a 100644
--- a/idlc_codegen_c/src/interface/mod.rs
+++ b/idlc_codegen_c/src/interface/mod.rs
@@ -8,6 +8,11 @@ pub mod variable_names;
 
 use crate::types::const_value;
 
+/// Objects are passed to methods of interfaces which can precede their own interface.
+pub fn emit_interface_type(interface: &Interface) -> String {
+    format!("typedef Object {};\n", interface.ident)
+}
+
 pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) -> String {
     let ident = interface.ident.to_string();
 
@@ -91,15 +96,8 @@ pub fn emit_interface_impl(interface: &Interface, is_no_typed_objects: bool) ->
             }
         }
     }
-    let object_defined = if is_no_typed_objects {
-        "".to_string()
-    } else {
-        format!("typedef Object {ident};")
-    };
-
     format!(
         r#"
-{object_defined}
 {constants}
 {errors}
 {op_codes}
diff --git a/idlc_codegen_cpp/src/generator.rs b/idlc_codegen_cpp/src/generator.rs
index 38e3129..30b2ecb 100644
--- a/idlc_codegen_cpp/src/generator.rs
+++ b/idlc_codegen_cpp/src/generator.rs
@@ -4,18 +4,28 @@
 use idlc_codegen_c::globals::emit_struct;
 use idlc_mir::Node;
 
-use crate::interface::{emit_const, emit_interface_impl, emit_interface_invoke};
+use crate::interface::{
+    emit_const, emit_interface_impl, emit_interface_invoke, emit_interface_methods,
+    emit_interface_type,
+};
 
-use idlc_codegen::MINKIDL_HEADER_COMMENT;
+use idlc_codegen::{order::declaration_order, MINKIDL_HEADER_COMMENT};
 pub struct Generator;
 
 impl idlc_codegen::SplitInvokeGenerator for Generator {
     fn generate_implementation(&self, mir: &idlc_mir::Mir) -> String {
         let mut result = String::new();
+        let mut methods = String::new();
         result.push_str(&generate_common());
 
         for node in &mir.nodes {
-            match node.as_ref() {
+            if let Node::Interface(i) = node.as_ref() {
+                result.push_str(&emit_interface_type(i));
+            }
+        }
+
+        for node in declaration_order(&mir.nodes) {
+            match node {
                 Node::Include(i) => {
                     let inc_name = i.display().to_string().replace(".idl", "");
                     result.push_str(&format!("#include \"{}.hpp\"\n", inc_name));
@@ -28,9 +38,11 @@ impl idlc_codegen::SplitInvokeGenerator for Generator {
                 }
                 Node::Interface(i) => {
                     result.push_str(&emit_interface_impl(i));
+                    methods.push_str(&emit_interface_methods(i));
                 }
             }
         }
+        result.push_str(&methods);
 
         result
     }
diff --git a/idlc_codegen_cpp/src/interface/functions/implementation.rs b/idlc_codegen_cpp/src/interface/functions/implementation.rs
index d62332c..c73e6dc 100644
--- a/idlc_codegen_cpp/src/interface/functions/implementation.rs
+++ b/idlc_codegen_cpp/src/interface/functions/implementation.rs
@@ -215,22 +215,45 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 }
 
-pub fn emit(
+pub fn emit_declaration(
     function: &idlc_mir::Function,
     documentation: &str,
-    counts: &idlc_codegen::counts::Counter,
     signature: &super::signature::Signature,
 ) -> String {
     let ident = &function.ident;
-    let total = counts.total();
-    let mut object_args = String::new();
+    let params = emit_params(signature);
+
+    format!(
+        r#"
+{documentation}
+    virtual int32_t {ident}({params});
+"#
+    )
+}
 
+fn emit_params(signature: &super::signature::Signature) -> String {
     let mut params =
         idlc_codegen_c::interface::functions::signature::iter_to_string(signature.params());
     if !params.is_empty() {
         params.remove(0);
     }
 
+    params
+}
+
+pub fn emit(
+    interface: &idlc_mir::Interface,
+    function: &idlc_mir::Function,
+    counts: &idlc_codegen::counts::Counter,
+    signature: &super::signature::Signature,
+) -> String {
+    let ident = &function.ident;
+    let class = &interface.ident;
+    let total = counts.total();
+    let mut object_args = String::new();
+
+    let params = emit_params(signature);
+
     let implementation = Implementation::new(function);
     let mut initializations = implementation.0.initializations();
     let mut args = implementation.0.args();
@@ -263,8 +286,7 @@ pub fn emit(
 
     format!(
         r#"
-{documentation}
-    virtual int32_t {ident}({params}) {{
+    inline int32_t {class}::{ident}({params}) {{
 {0}{1}{2}
         int32_t result = {returns}
         if (Object_OK != result) {{ return result; }}
diff --git a/idlc_codegen_cpp/src/interface/mod.rs b/idlc_codegen_cpp/src/interface/mod.rs
index 85dcd6e..02d16e1 100644
--- a/idlc_codegen_cpp/src/interface/mod.rs
+++ b/idlc_codegen_cpp/src/interface/mod.rs
@@ -22,6 +22,36 @@ pub fn emit_const(constant: &idlc_mir::Const) -> String {
     )
 }
 
+/// Objects are passed to methods of interfaces which can precede their own interface.
+pub fn emit_interface_type(interface: &Interface) -> String {
+    format!("class {};\n", interface.ident)
+}
+
+/// The methods of the proxy pass objects of any interface, all of which must be complete by then.
+pub fn emit_interface_methods(interface: &Interface) -> String {
+    let functions = |iface: &Interface| {
+        let mut implementations = String::new();
+        for node in &iface.nodes {
+            if let InterfaceNode::Function(f) = node {
+                let counts = idlc_codegen::counts::Counter::new(f);
+                let signature = functions::signature::Signature::new(f, &counts);
+
+                implementations.push_str(&functions::implementation::emit(
+                    interface, f, &counts, &signature,
+                ));
+            }
+        }
+
+        implementations
+    };
+
+    // need to have all of the base-class functions
+    let mut implementations: String = interface.iter().skip(1).map(functions).collect();
+    implementations.push_str(&functions(interface));
+
+    implementations
+}
+
 pub fn emit_interface_impl(interface: &Interface) -> String {
     let ident = interface.ident.to_string();
 
@@ -30,7 +60,7 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
     let mut errors = String::new();
     let mut op_codes = String::new();
     let mut func_titles = String::new();
-    let mut implementations = String::new();
+    let mut methods = String::new();
 
     // need to have all of the base-class functions, error-codes and const values
     interface.iter().skip(1).for_each(|iface| {
@@ -57,10 +87,9 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
                     idlc_codegen::documentation::DocumentationStyle::C,
                 );
 
-                implementations.push_str(&functions::implementation::emit(
+                methods.push_str(&functions::implementation::emit_declaration(
                     f,
                     &documentation,
-                    &counts,
                     &signature,
                 ));
             }
@@ -106,10 +135,9 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
     static const ObjectOp OP_{} = {};"#,
                     f.ident, f.id,
                 ));
-                implementations.push_str(&functions::implementation::emit(
+                methods.push_str(&functions::implementation::emit_declaration(
                     f,
                     &documentation,
-                    &counts,
                     &signature,
                 ));
             }
@@ -123,7 +151,6 @@ pub fn emit_interface_impl(interface: &Interface) -> String {
 
     format!(
         r#"
-class {ident};
 class I{ident} {base_iface}{{
   public:{constants}
 {errors}
@@ -141,7 +168,7 @@ class {ident} : public I{ident}, public ProxyBase {{
     {ident}(Object impl) : ProxyBase(impl) {{}}
     virtual ~{ident}() {{}}
 
-{implementations}
+{methods}
 }};
 
 "#
-- 
2.43.0


From 78ff12c26c6329167acc9109e55912636b9444a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:41 +0000
Subject: [PATCH 22/30] fix: name the parameters of C skeleton macros out of
 reach of IDL identifiers

Methods and fields called func, prefix or type were replaced by the
arguments of the macro.
---
 idlc_codegen_c/src/interface/functions/invoke.rs |  8 ++++----
 idlc_codegen_c/src/interface/mod.rs              | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/idlc_codegen_c/src/interface/functions/invoke.rs b/idlc_codegen_c/src/interface/functions/invoke.rs
index 3fc19b2..27082d4 100644
--- a/idlc_codegen_c/src/interface/functions/invoke.rs
+++ b/idlc_codegen_c/src/interface/functions/invoke.rs
@@ -413,19 +413,19 @@ pub fn emit(
     let params = super::signature::iter_to_string(signature.params());
     let call = if function.is_optional() {
         weak_declarations.push_str(&format!(
-            r#"int32_t prefix##{ident}(type ctx{params}) __attribute__((weak)); \
+            r#"int32_t _prefix##{ident}(_type ctx{params}) __attribute__((weak)); \
         "#
         ));
         format!(
             r"int32_t r; \
-                if (prefix##{ident} != NULL) {{ \
-                    r = prefix##{ident}(me{return_idents}); \
+                if (_prefix##{ident} != NULL) {{ \
+                    r = _prefix##{ident}(me{return_idents}); \
                 }} else {{ \
                     return Object_ERROR_INVALID; \
                 }} \"
         )
     } else {
-        format!(r"int32_t r = prefix##{ident}(me{return_idents}); \")
+        format!(r"int32_t r = _prefix##{ident}(me{return_idents}); \")
     };
 
     let counts = format!(
diff --git a/idlc_codegen_c/src/interface/mod.rs b/idlc_codegen_c/src/interface/mod.rs
index ee7162a..82ba284 100644
--- a/idlc_codegen_c/src/interface/mod.rs
+++ b/idlc_codegen_c/src/interface/mod.rs
@@ -161,7 +161,7 @@ pub fn emit_interface_invoke(interface: &Interface, is_no_typed_objects: bool) -
         .then_some(format!(r#"typedef Object {ident};"#))
         .unwrap_or_default();
 
-    // weak_delcarations goes inside `func` to preserve the expected when the macro is instantiated
+    // weak_delcarations goes inside `_func` to preserve the expected when the macro is instantiated
     // with `static IFoo_DEFINE_INVOKE`. It is OK to declare functions within functions for C.
     format!(
         r#"{typed_objects}
@@ -175,25 +175,25 @@ pub fn emit_interface_invoke(interface: &Interface, is_no_typed_objects: bool) -
 #define __compiler_pragma_post
 #endif
 
-#define {ident}_DEFINE_INVOKE(func, prefix, type) \
-    int32_t func(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) \
+#define {ident}_DEFINE_INVOKE(_func, _prefix, _type) \
+    int32_t _func(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) \
     {{ \
         __compiler_pragma_pre \
         {weak_declarations} \
         __compiler_pragma_post \
-        type me = (type) h; \
+        _type me = (_type) h; \
         switch (ObjectOp_methodID(op)) {{ \
             case Object_OP_release: {{ \
                 if (k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
                     break; \
                 }} \
-                return prefix##release(me); \
+                return _prefix##release(me); \
             }} \
             case Object_OP_retain: {{ \
                 if (k != ObjectCounts_pack(0, 0, 0, 0)) {{ \
                     break; \
                 }} \
-                return prefix##retain(me); \
+                return _prefix##retain(me); \
             }} \
             {invokes} \
         }} \
-- 
2.43.0


From 589fc578b0212db30099b09abbb25aa3d8d7f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:41 +0000
Subject: [PATCH 23/30] fix: name Rust locals, length parameters and modules
 out of reach of IDL identifiers

Parameters called args, cx, bi, bo, ... shadowed the variables of the generated
code, parameters called like the length of a buffer were declared twice, and
modules of interfaces called like a keyword weren't escaped.
---
 idlc_codegen_rust/src/generator.rs            |  2 +-
 idlc_codegen_rust/src/globals.rs              |  6 +--
 .../src/interface/functions/implementation.rs | 34 +++++++-------
 .../src/interface/functions/invoke.rs         | 31 +++++++------
 .../src/interface/functions/serialization.rs  |  9 +++-
 .../src/interface/functions/signature.rs      | 44 +++++--------------
 idlc_codegen_rust/src/interface/mod.rs        | 10 ++---
 .../src/interface/variable_names.rs           | 17 +++----
 idlc_codegen_rust/src/types.rs                | 11 ++++-
 9 files changed, 77 insertions(+), 87 deletions(-)

diff --git a/idlc_codegen_rust/src/generator.rs b/idlc_codegen_rust/src/generator.rs
index b65a0f7..e16a921 100644
--- a/idlc_codegen_rust/src/generator.rs
+++ b/idlc_codegen_rust/src/generator.rs
@@ -45,7 +45,7 @@ impl idlc_codegen::Generator for Generator {
                     let mut interface_content = String::new();
                     for base in i.iter().skip(1) {
                         interface_content.push_str(&format!(
-                            "use crate::interfaces::{}::*;\n",
+                            "use crate::interfaces::r#{}::*;\n",
                             base.ident.to_lowercase()
                         ));
                     }
diff --git a/idlc_codegen_rust/src/globals.rs b/idlc_codegen_rust/src/globals.rs
index e2db162..1f817f8 100644
--- a/idlc_codegen_rust/src/globals.rs
+++ b/idlc_codegen_rust/src/globals.rs
@@ -20,13 +20,9 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
                 crate::types::namespaced_struct(s.as_ref())
             }
             idlc_mir::Type::Interface(ty) => {
-                use crate::interface::mink_primitives::{INTERFACES_BASE, OBJECT};
-                use std::borrow::Cow;
                 contains_interface = true;
 
-                let ty = ty.as_ref().map_or(Cow::Borrowed(OBJECT), |ty| {
-                    Cow::Owned(format!("{INTERFACES_BASE}::{}::{ty}", ty.to_lowercase()))
-                });
+                let ty = crate::types::object(ty.as_deref());
 
                 format!("Option<{ty}>")
             }
diff --git a/idlc_codegen_rust/src/interface/functions/implementation.rs b/idlc_codegen_rust/src/interface/functions/implementation.rs
index 878f926..d4c5831 100644
--- a/idlc_codegen_rust/src/interface/functions/implementation.rs
+++ b/idlc_codegen_rust/src/interface/functions/implementation.rs
@@ -72,9 +72,10 @@ impl Implementation {
     }
 
     fn generate_output_buffer(&mut self, ident: &Ident, ty: &str) {
+        let lenout = super::signature::lenout(ident);
         let ident = EscapedIdent::new(ident);
         self.post_call.push(format!(
-            "*{ident}_lenout = unsafe {{ {ARGS}[{idx}].b.size }} / std::mem::size_of::<{ty}>();",
+            "*{lenout} = unsafe {{ {ARGS}[{idx}].b.size }} / std::mem::size_of::<{ty}>();",
             idx = self.args.len()
         ));
         self.args.push(format!(
@@ -122,13 +123,13 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.initializations.push(format!(
             r#"
             {definition}
-            let mut bi = {BI_STRUCT}({idents});
+            let mut _bi = {BI_STRUCT}({idents});
             "#
         ));
         self.args.push(format!(
             r#"{ARG} {{
                 bi: {INPUT_BUFFER} {{
-                    ptr: std::ptr::addr_of!(bi).cast(),
+                    ptr: std::ptr::addr_of!(_bi).cast(),
                     size: {size},
                 }}
             }}
@@ -178,11 +179,11 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             self.args.push(format!(
                 r#"{ARG} {{
                 o: std::mem::ManuallyDrop::new(unsafe {{
-                    let ptr = &mut (*{escaped_ident}.get()).{path};
-                    let obj = std::mem::ManuallyDrop::new(std::ptr::read(ptr));
-                    std::ptr::write_volatile(ptr, std::mem::zeroed());
+                    let _ptr = &mut (*{escaped_ident}.get()).{path};
+                    let _obj = std::mem::ManuallyDrop::new(std::ptr::read(_ptr));
+                    std::ptr::write_volatile(_ptr, std::mem::zeroed());
 
-                    std::mem::transmute_copy(&obj)
+                    std::mem::transmute_copy(&_obj)
                 }})
             }}"#
             ));
@@ -193,7 +194,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let ident = EscapedIdent::new(ident);
         self.args.push(format!(
             r#"{ARG} {{
-                o: std::mem::ManuallyDrop::new({ident}.map(|o| unsafe {{ std::mem::transmute_copy(o) }} ))
+                o: std::mem::ManuallyDrop::new({ident}.map(|_o| unsafe {{ std::mem::transmute_copy(_o) }} ))
             }}"#
         ));
     }
@@ -245,16 +246,16 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         self.initializations.push(format!(
             r#"
                 {definition}
-                let mut bo = std::mem::MaybeUninit::<{BO_STRUCT}>::uninit();
+                let mut _bo = std::mem::MaybeUninit::<{BO_STRUCT}>::uninit();
                 "#
         ));
         self.post_call.push(format!(
-            "let {BO_STRUCT}({idents}) = unsafe {{ bo.assume_init() }};"
+            "let {BO_STRUCT}({idents}) = unsafe {{ _bo.assume_init() }};"
         ));
         self.args.push(format!(
             r#"{ARG} {{
                 b: {OUTPUT_BUFFER} {{
-                    ptr: std::ptr::addr_of_mut!(bo).cast(),
+                    ptr: std::ptr::addr_of_mut!(_bo).cast(),
                     size: {size},
                 }}
             }}"#
@@ -265,7 +266,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let ty: &str = &namespaced_struct(r#struct);
         let escaped_ident = EscapedIdent::new(ident);
         self.initializations.push(format!(
-            "let mut {ident} = std::mem::MaybeUninit::<{ty}>::uninit();\n"
+            "let mut {escaped_ident} = std::mem::MaybeUninit::<{ty}>::uninit();\n"
         ));
         self.args.push(format!(
             r#"{ARG} {{
@@ -313,12 +314,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     }
 
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
-        use crate::interface::mink_primitives::{INTERFACES_BASE, OBJECT};
-        use std::borrow::Cow;
-
-        let ty = ty.map_or(Cow::Borrowed(OBJECT), |ty| {
-            Cow::Owned(format!("{INTERFACES_BASE}::{}::{ty}", ty.to_lowercase()))
-        });
+        let ty = crate::types::object(ty);
         let ident = EscapedIdent::new(ident);
         self.initializations.push(format!(
             "let mut {ident}: [std::mem::MaybeUninit<Option<{ty}>>; {cnt}] = unsafe {{ std::mem::MaybeUninit::uninit().assume_init() }};"
@@ -376,7 +372,7 @@ pub fn emit(
                     {post_call_assignments}
                     Ok(({return_idents}))
                 }},
-                err => Err(unsafe {{ std::mem::transmute(err) }})
+                _err => Err(unsafe {{ std::mem::transmute(_err) }})
             }}
         }}
     "#
diff --git a/idlc_codegen_rust/src/interface/functions/invoke.rs b/idlc_codegen_rust/src/interface/functions/invoke.rs
index 76037eb..c7a18a0 100644
--- a/idlc_codegen_rust/src/interface/functions/invoke.rs
+++ b/idlc_codegen_rust/src/interface/functions/invoke.rs
@@ -60,22 +60,25 @@ impl Invoke {
         }};"#));
     }
 
-    fn generate_for_output_buffer(&mut self, ident: EscapedIdent, ty: &str) {
+    fn generate_for_output_buffer(&mut self, ident: &Ident, ty: &str) {
         let idx = self.idx();
+        let orig = format!("_{ident}_orig");
+        let lenout = super::signature::lenout(ident);
+        let ident = EscapedIdent::new(ident);
         self.pre.push(format!(
-            r#"let {ident}_orig = {ARGS}[{idx}].b.size;
-            let {ident}_lenout = &mut *std::ptr::addr_of_mut!({ARGS}[{idx}].b.size);"#
+            r#"let {orig} = {ARGS}[{idx}].b.size;
+            let {lenout} = &mut *std::ptr::addr_of_mut!({ARGS}[{idx}].b.size);"#
         ));
         self.pre.push(format!(
-        r#"let {ident} = if {ident}_orig == 0 {{
+        r#"let {ident} = if {orig} == 0 {{
             &mut []
         }} else {{
-            std::slice::from_raw_parts_mut({ARGS}[{idx}].b.ptr.cast::<{ty}>(), {ident}_orig / std::mem::size_of::<{ty}>())
+            std::slice::from_raw_parts_mut({ARGS}[{idx}].b.ptr.cast::<{ty}>(), {orig} / std::mem::size_of::<{ty}>())
         }};"#));
         self.post.push(format!(
             r#"
-            *{ident}_lenout = {ident}_lenout.saturating_mul(std::mem::size_of::<{ty}>());
-            assert!(*{ident}_lenout <= {ident}_orig);
+            *{lenout} = {lenout}.saturating_mul(std::mem::size_of::<{ty}>());
+            assert!(*{lenout} <= {orig});
             "#
         ));
     }
@@ -124,7 +127,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             "#,
         ));
         self.pre.push(format!(
-            "let {BI_STRUCT}({idents}) = std::ptr::read(args[0].bi.ptr.cast::<{BI_STRUCT}>());"
+            "let {BI_STRUCT}({idents}) = std::ptr::read({ARGS}[{idx}].bi.ptr.cast::<{BI_STRUCT}>());"
         ));
         self.pre.push(packer.post_bi_assignments());
     }
@@ -186,11 +189,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
-        self.generate_for_output_buffer(EscapedIdent::new(ident), change_primitive(ty));
+        self.generate_for_output_buffer(ident, change_primitive(ty));
     }
 
     fn visit_output_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
-        self.generate_for_output_buffer(EscapedIdent::new(ident), &namespaced_struct(ty));
+        self.generate_for_output_buffer(ident, &namespaced_struct(ty));
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, r#struct: &StructInner) {
@@ -327,17 +330,17 @@ pub fn emit(
         if {COUNTS} != {PACK_COUNTS}{counts:?} {{
             return std::mem::transmute({GENERIC_ERROR}::GENERIC)
         }}
-        let args = std::slice::from_raw_parts_mut({ARGS}, {n_args});
+        let {ARGS} = std::slice::from_raw_parts_mut({ARGS}, {n_args});
 
         {pre}
 
-        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut cx| cx.r#{ident}({params})) {{
+        match (*{CONTEXT}).inner.lock().map_err(|_| std::mem::transmute({GENERIC_ERROR}::INVALID)).and_then(|mut {CONTEXT}| {CONTEXT}.r#{ident}({params})) {{
             Ok(({returns})) => {{
                 {post}
                 {OK}
             }},
-            Err(e) => {{
-                i32::from({ERROR_STRUCT}::from(e))
+            Err(_e) => {{
+                i32::from({ERROR_STRUCT}::from(_e))
             }}
         }}
 
diff --git a/idlc_codegen_rust/src/interface/functions/serialization.rs b/idlc_codegen_rust/src/interface/functions/serialization.rs
index b2028fc..75fd29f 100644
--- a/idlc_codegen_rust/src/interface/functions/serialization.rs
+++ b/idlc_codegen_rust/src/interface/functions/serialization.rs
@@ -5,6 +5,7 @@ use std::borrow::Cow;
 
 use idlc_codegen::serialization::Type;
 
+use crate::interface::variable_names::invoke::{BI_STRUCT, BO_STRUCT};
 use crate::{
     ident::EscapedIdent,
     types::{change_primitive, namespaced_struct},
@@ -26,7 +27,7 @@ impl<'a> PackedPrimitives<'a> {
     }
 
     pub fn bi_definition(&self) -> Option<TransportBuffer> {
-        Self::generate_struct(self.0.input_types(), "BI", self.0.packed_input_size())
+        Self::generate_struct(self.0.input_types(), BI_STRUCT, self.0.packed_input_size())
     }
 
     pub fn bi_definition_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
@@ -58,7 +59,11 @@ impl<'a> PackedPrimitives<'a> {
     }
 
     pub fn bo_definition(&self) -> Option<TransportBuffer> {
-        Self::generate_struct(self.0.output_types(), "BO", self.0.packed_output_size())
+        Self::generate_struct(
+            self.0.output_types(),
+            BO_STRUCT,
+            self.0.packed_output_size(),
+        )
     }
 
     pub fn bo_idents(&self) -> impl ExactSizeIterator<Item = String> + '_ {
diff --git a/idlc_codegen_rust/src/interface/functions/signature.rs b/idlc_codegen_rust/src/interface/functions/signature.rs
index 4499ec4..dcb33ec 100644
--- a/idlc_codegen_rust/src/interface/functions/signature.rs
+++ b/idlc_codegen_rust/src/interface/functions/signature.rs
@@ -29,6 +29,12 @@ pub fn iter_to_string(iter: impl Iterator<Item = impl AsRef<str>>) -> String {
     acc
 }
 
+/// Name of the parameter with the length of the output buffer `ident`, out of the reach of IDL
+/// identifiers, which start with a letter.
+pub fn lenout(ident: &Ident) -> String {
+    format!("_{ident}_lenout")
+}
+
 impl Signature {
     pub fn new(function: &idlc_mir::Function) -> Self {
         let mut me = Self::default();
@@ -92,41 +98,25 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     }
 
     fn visit_input_object(&mut self, ident: &Ident, ty: Option<&str>) {
-        use crate::interface::mink_primitives::{INTERFACES_BASE, OBJECT};
-        use std::borrow::Cow;
-
-        let ty = ty.map_or(Cow::Borrowed(OBJECT), |ty| {
-            Cow::Owned(format!("{INTERFACES_BASE}::{}::{ty}", ty.to_lowercase()))
-        });
+        let ty = crate::types::object(ty);
 
         self.push_inputs(ident, format!("Option<&{ty}>"));
     }
 
     fn visit_input_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
-        use crate::interface::mink_primitives::{INTERFACES_BASE, OBJECT};
-        use std::borrow::Cow;
-
-        let ty = ty.map_or(Cow::Borrowed(OBJECT), |ty| {
-            Cow::Owned(format!("{INTERFACES_BASE}::{}::{ty}", ty.to_lowercase()))
-        });
+        let ty = crate::types::object(ty);
 
         self.push_inputs(ident, format!("&[Option<{ty}>; {cnt}]"));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
         self.push_inputs(ident, format!("&mut [{}]", change_primitive(ty)));
-        self.push_inputs(
-            &idlc_mir::Ident::new_without_span(format!("{ident}_lenout")),
-            "&mut usize",
-        );
+        self.inputs.push((lenout(ident), "&mut usize".to_string()));
     }
 
     fn visit_output_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
         self.push_inputs(ident, format!("&mut [{}]", namespaced_struct(ty)));
-        self.push_inputs(
-            &idlc_mir::Ident::new_without_span(format!("{ident}_lenout")),
-            "&mut usize",
-        );
+        self.inputs.push((lenout(ident), "&mut usize".to_string()));
     }
 
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
@@ -141,22 +131,12 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     }
 
     fn visit_output_object(&mut self, ident: &Ident, ty: Option<&str>) {
-        use crate::interface::mink_primitives::{INTERFACES_BASE, OBJECT};
-        use std::borrow::Cow;
-
-        let ty = ty.map_or(Cow::Borrowed(OBJECT), |ty| {
-            Cow::Owned(format!("{INTERFACES_BASE}::{}::{ty}", ty.to_lowercase()))
-        });
+        let ty = crate::types::object(ty);
         self.push_outputs(ident, format!("Option<{ty}>"));
     }
 
     fn visit_output_object_array(&mut self, ident: &Ident, ty: Option<&str>, cnt: idlc_mir::Count) {
-        use crate::interface::mink_primitives::{INTERFACES_BASE, OBJECT};
-        use std::borrow::Cow;
-
-        let ty = ty.map_or(Cow::Borrowed(OBJECT), |ty| {
-            Cow::Owned(format!("{INTERFACES_BASE}::{}::{ty}", ty.to_lowercase()))
-        });
+        let ty = crate::types::object(ty);
         self.push_outputs(ident, format!("[Option<{ty}>; {cnt}]"));
     }
 }
diff --git a/idlc_codegen_rust/src/interface/mod.rs b/idlc_codegen_rust/src/interface/mod.rs
index ddfcd43..3402550 100644
--- a/idlc_codegen_rust/src/interface/mod.rs
+++ b/idlc_codegen_rust/src/interface/mod.rs
@@ -127,8 +127,8 @@ pub fn emit(interface: &Interface) -> String {
 
     impl<T: I{ident} + 'static> From<T> for {ident} {{
         fn from(concrete: T) -> Self {{
-            let cx = Box::new(unsafe {{ {wrapper}::new::<T>(Box::new(concrete)) }});
-            unsafe {{ Self({OBJECT}::create(MARKER, Box::into_raw(cx).cast())) }}
+            let {cx} = Box::new(unsafe {{ {wrapper}::new::<T>(Box::new(concrete)) }});
+            unsafe {{ Self({OBJECT}::create({MARKER}, Box::into_raw({cx}).cast())) }}
         }}
     }}
 
@@ -136,13 +136,13 @@ pub fn emit(interface: &Interface) -> String {
     unsafe extern "C" fn invoke({h}: {CONTEXT}, {op}: {OP_ID}, {args}: *mut {ARG}, {counts}: {COUNTS}) -> i32 {{
         debug_assert_eq!({h}.align_offset(std::mem::align_of::<{wrapper}>()), 0);
         let {cx} = {h}.cast::<{wrapper}>();
-        match op {{
+        match {op} {{
             {invoke_arms}
             {OP_RELEASE} => {{
-                {WRAPPER}::release(cx)
+                {WRAPPER}::release({cx})
             }},
             {OP_RETAIN} => {{
-                {WRAPPER}::retain(cx)
+                {WRAPPER}::retain({cx})
             }},
             _ => {GENERIC_ERROR}::INVALID.into(),
         }}
diff --git a/idlc_codegen_rust/src/interface/variable_names.rs b/idlc_codegen_rust/src/interface/variable_names.rs
index 0994bb3..12fe8df 100644
--- a/idlc_codegen_rust/src/interface/variable_names.rs
+++ b/idlc_codegen_rust/src/interface/variable_names.rs
@@ -1,14 +1,15 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
+// IDL identifiers start with a letter, the names below are out of their reach.
 pub(super) mod invoke {
-    pub const HANDLE: &str = "h";
-    pub const OP_ID: &str = "op";
-    pub const ARGS: &str = "args";
-    pub const COUNTS: &str = "counts";
-    pub const MARKER: &str = "MARKER";
-    pub const CONTEXT: &str = "cx";
+    pub const HANDLE: &str = "_h";
+    pub const OP_ID: &str = "_op";
+    pub const ARGS: &str = "_args";
+    pub const COUNTS: &str = "_counts";
+    pub const MARKER: &str = "_MARKER";
+    pub const CONTEXT: &str = "_cx";
 
-    pub const BI_STRUCT: &str = "BI";
-    pub const BO_STRUCT: &str = "BO";
+    pub const BI_STRUCT: &str = "_BI";
+    pub const BO_STRUCT: &str = "_BO";
 }
diff --git a/idlc_codegen_rust/src/types.rs b/idlc_codegen_rust/src/types.rs
index 4c19d8b..f9c2c1d 100644
--- a/idlc_codegen_rust/src/types.rs
+++ b/idlc_codegen_rust/src/types.rs
@@ -16,6 +16,15 @@ pub const fn change_primitive(primitive: idlc_mir::Primitive) -> &'static str {
     }
 }
 
+/// Path of the type of an object; `None` is any object.
+pub fn object(ty: Option<&str>) -> String {
+    use crate::interface::mink_primitives::{INTERFACES_BASE, OBJECT};
+    ty.map_or_else(
+        || OBJECT.to_string(),
+        |ty| format!("{INTERFACES_BASE}::r#{}::r#{ty}", ty.to_lowercase()),
+    )
+}
+
 pub fn namespaced_struct(r#struct: &idlc_mir::StructInner) -> String {
     use crate::interface::mink_primitives::INTERFACES_BASE;
     let namespace = r#struct
@@ -28,7 +37,7 @@ pub fn namespaced_struct(r#struct: &idlc_mir::StructInner) -> String {
                 .to_str()
                 .unwrap()
                 .to_lowercase();
-            format!("{INTERFACES_BASE}::{ident}::")
+            format!("{INTERFACES_BASE}::r#{ident}::")
         })
         .unwrap_or_default();
     let ident = super::ident::EscapedIdent::new(&r#struct.ident);
-- 
2.43.0


From 3741ef84ccd5bb019621764f268e74f20ec9d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 24/30] fix: extend the Java interfaces of included files by
 their names

Includes with directories or given twice made invalid extends clauses.
---
 idlc_codegen_java/src/generator.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/idlc_codegen_java/src/generator.rs b/idlc_codegen_java/src/generator.rs
index 15d188a..c6633bc 100644
--- a/idlc_codegen_java/src/generator.rs
+++ b/idlc_codegen_java/src/generator.rs
@@ -28,17 +28,21 @@ package com.qualcomm.qti.mink;
         interfaces.insert(base.clone(), prologue.to_owned());
 
         let input_name = &mir.tag.file_stem().unwrap().to_str().unwrap();
-        let mut includes = String::new();
+        // interfaces are named after the files, the directories don't matter
+        let mut included = Vec::new();
         for node in &mir.nodes {
             if let Node::Include(i) = node.as_ref() {
-                let inc_name = i.display().to_string().replace(".idl", "");
-                includes.push_str(&format!("{inc_name},"));
+                let inc_name = i.file_stem().unwrap().to_str().unwrap();
+                if !included.contains(&inc_name) {
+                    included.push(inc_name);
+                }
             }
         }
-        if !includes.is_empty() {
-            includes.pop();
-            includes = format!("extends {includes}");
-        }
+        let includes = if included.is_empty() {
+            String::new()
+        } else {
+            format!("extends {}", included.join(","))
+        };
         interfaces.get_mut(&base).unwrap().push_str(&format!(
             r#"public interface {input_name} {includes} {{
     "#
-- 
2.43.0


From b015fe60f05b3524bf924a3afd82ab34c8c18b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 25/30] fix: encode and decode whole arrays and structs in Java

Array fields of structs were transferred once instead of once per element and
never allocated, arrays were sized in bytes, output structs and arrays weren't
allocated, and the locals of different parameters clashed.
---
 idlc_codegen_java/src/globals.rs              |  25 ++-
 .../src/interface/functions/implementation.rs | 141 +++++---------
 .../src/interface/functions/invoke.rs         | 176 ++++++++----------
 .../src/interface/functions/serialization.rs  |  97 +++-------
 .../src/interface/functions/signature.rs      |  33 ++--
 idlc_codegen_java/src/types.rs                |  59 ++++--
 6 files changed, 230 insertions(+), 301 deletions(-)

diff --git a/idlc_codegen_java/src/globals.rs b/idlc_codegen_java/src/globals.rs
index 3d630bd..6a96c2b 100644
--- a/idlc_codegen_java/src/globals.rs
+++ b/idlc_codegen_java/src/globals.rs
@@ -20,16 +20,29 @@ pub fn emit_struct(r#struct: &StructInner) -> String {
             }
             _ => unreachable!(),
         };
-        contents.push_str(&if count == 1 {
-            format!(
+        let is_struct = matches!(field.val.0, idlc_mir::Type::Struct(_));
+        contents.push_str(&match (count, is_struct) {
+            (1, false) => format!(
                 r#"public {ty} {ident};
         "#
-            )
-        } else {
-            format!(
+            ),
+            (1, true) => format!(
+                r#"public {ty} {ident}=new {ty}();
+        "#
+            ),
+            (_, false) => format!(
+                r#"public {ty}[] {ident}=new {ty}[{count}];
+        "#
+            ),
+            (_, true) => format!(
                 r#"public {ty}[] {ident}=new {ty}[{count}];
+        {{
+            for (int i=0;i<{count};i++) {{
+                this.{ident}[i]=new {ty}();
+            }}
+        }}
         "#
-            )
+            ),
         });
     }
 
diff --git a/idlc_codegen_java/src/interface/functions/implementation.rs b/idlc_codegen_java/src/interface/functions/implementation.rs
index 58af14d..501e80b 100644
--- a/idlc_codegen_java/src/interface/functions/implementation.rs
+++ b/idlc_codegen_java/src/interface/functions/implementation.rs
@@ -4,9 +4,9 @@
 use idlc_mir::Ident;
 
 use crate::interface::mink_primitives::{
-    BI, BO, BUNDLE_IN, BUNDLE_OUT, BYTE_BUFFER, BYTE_ORDER, OI, OO, OP_ID,
+    BI, BO, BUNDLE_IN, BUNDLE_OUT, BYTE_BUFFER, BYTE_ORDER, IMINK_OBJECT, OI, OO, OP_ID,
 };
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{capitalize_first_letter, change_primitive, Transfer};
 
 use super::serialization::TransportBuffer;
 
@@ -14,8 +14,6 @@ use super::serialization::TransportBuffer;
 pub struct Implementation {
     initializations: Vec<String>,
     post_call: Vec<String>,
-    obj_arr_in: bool,
-    obj_arr_out: bool,
 
     bi_idx: usize,
     bo_idx: usize,
@@ -88,6 +86,7 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     fn visit_input_primitive_buffer(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
         let bi_idx = self.bi_idx();
         let name = format!("{}_val", ident);
+        let buffer = format!("{}_buf", ident);
         let sz = ty.size();
         let ty = capitalize_first_letter(change_primitive(ty));
         let to_buffer = if !ty.is_empty() {
@@ -97,9 +96,9 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         };
         self.initializations.push(format!(
             r#"if({name} != null) {{
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
-                buffer_{name}.{to_buffer}put({name});
-                {BI}[{bi_idx}] = buffer_{name}.array();
+                {BYTE_BUFFER} {buffer} = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
+                {buffer}.{to_buffer}put({name});
+                {BI}[{bi_idx}] = {buffer}.array();
             }}
             "#
         ));
@@ -117,50 +116,32 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     fn visit_input_struct_buffer(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
         let bi_idx = self.bi_idx();
         let name = format!("{}_val", ident);
+        let buffer = format!("{}_buf", ident);
         let sz = ty.size();
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"buffer_{name}.put{capitalized_ty}(i.{field_ident});
-                    "#
-            ));
-        }
+        let fields = Transfer::Put.r#struct(&buffer, "i", ty);
 
         self.initializations.push(format!(
             r#"if({name} != null) {{
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
+                {BYTE_BUFFER} {buffer} = {BYTE_BUFFER}.allocate({name}.length*{sz}).order({BYTE_ORDER});
                 for ({0} i : {name}) {{
-                    {buffer_in}
+                    {fields}
                 }}
-                {BI}[{bi_idx}] = buffer_{name}.array();
+                {BI}[{bi_idx}] = {buffer}.array();
             }}
             "#,
             ty.ident
         ));
     }
 
-    fn visit_input_object_array(
-        &mut self,
-        ident: &Ident,
-        _ty: Option<&str>,
-        _cnt: idlc_mir::Count,
-    ) {
-        let _io_idx = self.io_idx();
+    fn visit_input_object_array(&mut self, ident: &Ident, _ty: Option<&str>, cnt: idlc_mir::Count) {
         let name = format!("{}_val", ident);
-        self.obj_arr_in = true;
-        self.initializations.push(format!(
-            r#" for (int i=0; i<{name}.length; i++) {{
-                {OI}[i] = {name}[i];
-            }}
+        for i in 0..cnt.into() {
+            let io_idx = self.io_idx();
+            self.initializations.push(format!(
+                r#"{OI}[{io_idx}] = {name}[{i}];
             "#,
-        ));
+            ));
+        }
     }
 
     fn visit_input_primitive(&mut self, ident: &Ident, ty: idlc_mir::Primitive) {
@@ -197,25 +178,14 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &idlc_mir::StructInner) {
         let bi_idx = self.bi_idx();
         let name = format!("{}_val", ident);
+        let buffer = format!("{}_buf", ident);
         let sz = ty.size();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"buffer_{name}.put{capitalized_ty}({name}.{field_ident});
-            "#
-            ));
-        }
+        let fields = Transfer::Put.r#struct(&buffer, &name, ty);
 
         self.initializations.push(format!(
-            r#"{BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
+            r#"{BYTE_BUFFER} {buffer} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
             {fields}
-            {BI}[{bi_idx}] = buffer_{name}.array();
+            {BI}[{bi_idx}] = {buffer}.array();
             "#
         ));
     }
@@ -278,23 +248,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         let name = format!("{}_ptr", ident);
+        let buffer = format!("{}_buf", ident);
         let sz = ty.size();
-
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
+        let fields = Transfer::Get.r#struct(&buffer, &format!("{name}[0][i]"), ty);
         let ty = ty.ident.to_string();
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"{name}[0][i].{field_ident} = buffer_{name}.get{capitalized_ty}();
-                    "#
-            ));
-        }
 
         self.initializations.push(format!(
             r#"boSizes[{bo_sz_idx}] = {ident}_len*{sz};
@@ -304,9 +261,10 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
             r#"if({name} != null) {{
                 int {ident}_lenout = Math.min({BO}[{bo_idx}].length/{sz}, {ident}_len);
                 {name}[0] = new {ty}[{ident}_lenout];
-                {BYTE_BUFFER} buffer_{name} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
-                for (int i=0;i<{ident}_len;i++) {{
-                    {buffer_in}
+                {BYTE_BUFFER} {buffer} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
+                for (int i=0;i<{ident}_lenout;i++) {{
+                    {name}[0][i] = new {ty}();
+                    {fields}
                 }}
             }}
             "#,
@@ -320,11 +278,17 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         cnt: idlc_mir::Count,
     ) {
         let name = format!("{}_ptr", ident);
-        self.obj_arr_out = true;
+        let mut objects = String::new();
+        for i in 0..cnt.into() {
+            let oo_idx = self.oo_idx();
+            objects.push_str(&format!(
+                r#"
+                {name}[0][{i}] = {OO}[{oo_idx}];"#
+            ));
+        }
         self.post_call.push(format!(
-            r#"
-            for (int i=0;i<{cnt};i++) {{
-                {name}[0][i] = {OO}[i];
+            r#"if({name} != null) {{
+                {name}[0] = new {IMINK_OBJECT}[{cnt}];{objects}
             }}
             "#,
         ));
@@ -334,17 +298,17 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         let name = format!("{}_ptr", ident);
+        let buffer = format!("{}_buf", ident);
         let sz = ty.size();
-        let ty = capitalize_first_letter(change_primitive(ty));
+        let value = Transfer::Get.primitive(&buffer, &format!("{name}[0]"), ty);
         self.initializations.push(format!(
             r#"boSizes[{bo_sz_idx}] = {sz};
             "#,
         ));
         self.post_call.push(format!(
-            r#"{BYTE_BUFFER} {BUNDLE_OUT};
-            {BUNDLE_OUT} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
+            r#"{BYTE_BUFFER} {buffer} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
             if({name} != null) {{
-                {name}[0] = {BUNDLE_OUT}.get{ty}();
+                {value}
             }}
             "#,
         ));
@@ -375,26 +339,15 @@ impl idlc_codegen::functions::ParameterVisitor for Implementation {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
         let name = format!("{}_ptr", ident);
+        let buffer = format!("{}_buf", ident);
         let sz = ty.size();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{name}[0].{field_ident} = {BUNDLE_OUT}.get{capitalized_ty}();
-                "#
-            ));
-        }
+        let fields = Transfer::Get.r#struct(&buffer, &format!("{name}[0]"), ty);
         self.initializations.push(format!(
             r#"boSizes[{bo_sz_idx}] = {sz};
             "#,
         ));
         self.post_call.push(format!(
-            r#"{BYTE_BUFFER} {BUNDLE_OUT} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
+            r#"{BYTE_BUFFER} {buffer} = {BYTE_BUFFER}.wrap({BO}[{bo_idx}]).order({BYTE_ORDER});
             if ({name} != null) {{
                 {fields}
             }}
@@ -465,8 +418,6 @@ pub fn emit(
             counts.input_objects
         ));
         "oi".to_string()
-    } else if implementation.obj_arr_in {
-        "oi".to_string()
     } else {
         "null".to_string()
     };
@@ -477,8 +428,6 @@ pub fn emit(
             counts.output_objects
         ));
         "oo".to_string()
-    } else if implementation.obj_arr_out {
-        "oo".to_string()
     } else {
         "null".to_string()
     };
diff --git a/idlc_codegen_java/src/interface/functions/invoke.rs b/idlc_codegen_java/src/interface/functions/invoke.rs
index c8bdd39..f19f6c4 100644
--- a/idlc_codegen_java/src/interface/functions/invoke.rs
+++ b/idlc_codegen_java/src/interface/functions/invoke.rs
@@ -4,7 +4,7 @@
 use crate::interface::mink_primitives::{
     BI, BO, BUNDLE_IN, BUNDLE_OUT, BYTE_BUFFER, BYTE_ORDER, IMINK_OBJECT, OI, OO, OP_ID,
 };
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{capitalize_first_letter, change_primitive, Transfer};
 
 use super::serialization::TransportBuffer;
 
@@ -82,6 +82,8 @@ impl Invoke {
 impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_input_primitive_buffer(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
         let bi_idx = self.bi_idx();
+        let name = format!("{}_val", ident);
+        let sz = ty.size();
         let ty = change_primitive(ty);
         let capitalized_ty = capitalize_first_letter(ty);
         let to_buffer = if !capitalized_ty.is_empty() {
@@ -91,31 +93,26 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
 
         self.pre.push(format!(
-            r#"{ty}[] {ident} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).{to_buffer}array();
+            r#"{ty}[] {name} = new {ty}[{BI}[{bi_idx}].length/{sz}];
+                    {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).{to_buffer}get({name});
                     "#
         ));
     }
 
     fn visit_input_struct_buffer(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         let bi_idx = self.bi_idx();
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{ident}[0].{field_ident}={BUNDLE_IN}{bi_idx}.get{capitalized_ty}();
-                    "#
-            ));
-        }
+        let name = format!("{}_val", ident);
+        let buffer = format!("{}_buf", ident);
+        let sz = ty.size();
+        let fields = Transfer::Get.r#struct(&buffer, &format!("{name}[i]"), ty);
         let ty = ty.ident.to_string();
         self.pre.push(format!(
-            r#"{ty}[] {ident} = new {ty}[1];
-                    {BYTE_BUFFER} {BUNDLE_IN}{bi_idx} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
-                    {fields}
+            r#"{ty}[] {name} = new {ty}[{BI}[{bi_idx}].length/{sz}];
+                    {BYTE_BUFFER} {buffer} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
+                    for (int i=0;i<{name}.length;i++) {{
+                        {name}[i] = new {ty}();
+                        {fields}
+                    }}
                     "#
         ));
     }
@@ -124,19 +121,25 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         &mut self,
         ident: &idlc_mir::Ident,
         _ty: Option<&str>,
-        _cnt: idlc_mir::Count,
+        cnt: idlc_mir::Count,
     ) {
+        let name = format!("{}_val", ident);
         self.pre.push(format!(
-            r#"IMinkObject[] {ident}_val = new IMinkObject[{OI}.length];
-                    for (int i=0;i<{OI}.length;i++) {{
-                        {ident}_val[i] = {OI}[i];
-                    }}
+            r#"{IMINK_OBJECT}[] {name} = new {IMINK_OBJECT}[{cnt}];
                     "#
         ));
+        for i in 0..cnt.into() {
+            let io_idx = self.io_idx();
+            self.pre.push(format!(
+                r#"{name}[{i}] = {OI}[{io_idx}];
+                    "#
+            ));
+        }
     }
 
     fn visit_input_primitive(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
         let bi_idx = self.bi_idx();
+        let name = format!("{}_val", ident);
         let sz = ty.size();
         let ty = change_primitive(ty);
         let capitalized_ty = capitalize_first_letter(ty);
@@ -145,7 +148,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             r#"if ({BI}[{bi_idx}].length != {sz}) {{
                         break;
                     }}
-                    {ty} {ident} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).get{capitalized_ty}();
+                    {ty} {name} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER}).get{capitalized_ty}();
                     "#
         ));
     }
@@ -171,28 +174,17 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_input_big_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         let bi_idx = self.bi_idx();
+        let name = format!("{}_val", ident);
+        let buffer = format!("{}_buf", ident);
         let sz = ty.size();
-
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"{ident}.{field_ident}={BUNDLE_IN}{bi_idx}.get{capitalized_ty}();
-                    "#
-            ));
-        }
+        let fields = Transfer::Get.r#struct(&buffer, &name, ty);
         let ty = ty.ident.to_string();
         self.pre.push(format!(
             r#"if ({BI}[{bi_idx}].length != {sz}) {{
                         break;
                     }}
-                    {ty} {ident} = new {ty}();
-                    {BYTE_BUFFER} {BUNDLE_IN}{bi_idx} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
+                    {ty} {name} = new {ty}();
+                    {BYTE_BUFFER} {buffer} = {BYTE_BUFFER}.wrap({BI}[{bi_idx}]).order({BYTE_ORDER});
                     {fields}
                     "#
         ));
@@ -203,11 +195,10 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_input_object(&mut self, ident: &idlc_mir::Ident, _: Option<&str>) {
         let io_idx = self.io_idx();
-        let ty = IMINK_OBJECT.to_string();
+        let name = format!("{}_val", ident);
 
         self.pre.push(format!(
-            r#"{ty} {ident};
-                    {ident} = {OI}[{io_idx}];
+            r#"{IMINK_OBJECT} {name} = {OI}[{io_idx}];
                     "#
         ));
     }
@@ -215,6 +206,8 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_output_primitive_buffer(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
+        let name = format!("{}_ptr", ident);
+        let buffer = format!("{}_buf", ident);
         let sz = ty.size();
         let ty = change_primitive(ty);
         let capitalized_ty = capitalize_first_letter(ty);
@@ -225,14 +218,14 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         };
 
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][];
-                    int {ident}_len = boSizes[{bo_sz_idx}];
+            r#"{ty}[][] {name} = new {ty}[1][];
+                    int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}.length*{sz}).order({BYTE_ORDER});
-                    buffer_{ident}.{to_buffer}put({ident}[0]);
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
+            r#"{BYTE_BUFFER} {buffer} = {BYTE_BUFFER}.allocate({name}[0].length*{sz}).order({BYTE_ORDER});
+                    {buffer}.{to_buffer}put({name}[0]);
+                    {BO}[{bo_idx}] = {buffer}.array();
                     "#,
         ));
     }
@@ -240,13 +233,14 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_output_untyped_buffer(&mut self, ident: &idlc_mir::Ident) {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
+        let name = format!("{}_ptr", ident);
         self.pre.push(format!(
-            r#"byte[][] {ident} = new byte[1][];
+            r#"byte[][] {name} = new byte[1][];
                     int {ident}_len = boSizes[{bo_sz_idx}];
                     "#,
         ));
         self.post.push(format!(
-            r#"{BO}[{bo_idx}]={ident}[0];
+            r#"{BO}[{bo_idx}]={name}[0];
                     "#,
         ));
     }
@@ -254,37 +248,24 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_output_struct_buffer(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
+        let name = format!("{}_ptr", ident);
+        let buffer = format!("{}_buf", ident);
         let sz = ty.size();
-
-        let mut field_idents = Vec::new();
-        let mut buffer_in = String::new();
-
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            buffer_in.push_str(&format!(
-                r#"buffer_{ident}.put{capitalized_ty}(i.{field_ident});
-                    "#
-            ));
-        }
-
+        let fields = Transfer::Put.r#struct(&buffer, "i", ty);
         let ty = ty.ident.to_string();
 
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][];
-                    int {ident}_len = boSizes[{bo_sz_idx}];
+            r#"{ty}[][] {name} = new {ty}[1][];
+                    int {ident}_len = boSizes[{bo_sz_idx}]/{sz};
                     "#,
         ));
 
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({ident}.length*{sz}).order({BYTE_ORDER});
-                    for ({ty} i : {ident}[0]) {{
-                        {buffer_in}
+            r#"{BYTE_BUFFER} {buffer} = {BYTE_BUFFER}.allocate({name}[0].length*{sz}).order({BYTE_ORDER});
+                    for ({ty} i : {name}[0]) {{
+                        {fields}
                     }}
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
+                    {BO}[{bo_idx}] = {buffer}.array();
                     "#,
         ));
     }
@@ -295,51 +276,41 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
         _ty: Option<&str>,
         cnt: idlc_mir::Count,
     ) {
-        let ty = IMINK_OBJECT.to_string();
+        let name = format!("{}_ptr", ident);
         self.pre.push(format!(
-            r#"{ty}[][] {ident} = new {ty}[1][{OO}.length];
-                    int {ident}_len = oo.length;
+            r#"{IMINK_OBJECT}[][] {name} = new {IMINK_OBJECT}[1][{cnt}];
+                    int {ident}_len = {cnt};
                     "#,
         ));
-        self.post.push(format!(
-            r#"for (int i=0;i<{cnt};i++) {{
-                        oo[i] = {ident}[0][i];
-                    }}
+        for i in 0..cnt.into() {
+            let oo_idx = self.oo_idx();
+            self.post.push(format!(
+                r#"{OO}[{oo_idx}] = {name}[0][{i}];
                     "#
-        ));
+            ));
+        }
     }
 
     fn visit_output_big_struct(&mut self, ident: &idlc_mir::Ident, ty: &idlc_mir::StructInner) {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
+        let name = format!("{}_ptr", ident);
+        let buffer = format!("{}_buf", ident);
         let sz = ty.size();
-
-        let mut fields = String::new();
-        let mut field_idents = Vec::new();
-        get_struct_pair(ty, &mut field_idents, "".to_string());
-        for (field_ident, field_ty) in field_idents {
-            let mut capitalized_ty = String::new();
-            if let idlc_mir::Type::Primitive(p) = field_ty {
-                capitalized_ty = capitalize_first_letter(change_primitive(p));
-            }
-            fields.push_str(&format!(
-                r#"buffer_{ident}.put{capitalized_ty}({ident}[0].{field_ident});
-                    "#
-            ));
-        }
+        let fields = Transfer::Put.r#struct(&buffer, &format!("{name}[0]"), ty);
         let ty = ty.ident.to_string();
 
         self.pre.push(format!(
             r#"if (boSizes[{bo_sz_idx}] != {sz}) {{
                         break;
                     }}
-                    {ty}[] {ident} = new {ty}[1];
+                    {ty}[] {name} = {{new {ty}()}};
                     "#,
         ));
         self.post.push(format!(
-            r#"{BYTE_BUFFER} buffer_{ident} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
+            r#"{BYTE_BUFFER} {buffer} = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER});
                     {fields}
-                    {BO}[{bo_idx}] = buffer_{ident}.array();
+                    {BO}[{bo_idx}] = {buffer}.array();
                     "#,
         ));
     }
@@ -350,6 +321,7 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
     fn visit_output_primitive(&mut self, ident: &idlc_mir::Ident, ty: idlc_mir::Primitive) {
         let bo_idx = self.bo_idx();
         let bo_sz_idx = self.bo_sz_idx();
+        let name = format!("{}_ptr", ident);
         let sz = ty.size();
         let ty = change_primitive(ty);
         let capitalized_ty = capitalize_first_letter(ty);
@@ -358,11 +330,11 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
             r#"if (boSizes[{bo_sz_idx}] != {sz}) {{
                         break;
                     }}
-                    {ty}[] {ident} = new {ty}[1];
+                    {ty}[] {name} = new {ty}[1];
                     "#,
         ));
         self.post.push(format!(
-            r#"{BO}[{bo_idx}] = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER}).put{capitalized_ty}({ident}[0]).array();
+            r#"{BO}[{bo_idx}] = {BYTE_BUFFER}.allocate({sz}).order({BYTE_ORDER}).put{capitalized_ty}({name}[0]).array();
                     "#,
         ));
     }
@@ -397,13 +369,13 @@ impl idlc_codegen::functions::ParameterVisitor for Invoke {
 
     fn visit_output_object(&mut self, ident: &idlc_mir::Ident, _: Option<&str>) {
         let oo_idx = self.oo_idx();
-        let ty = IMINK_OBJECT.to_string();
+        let name = format!("{}_ptr", ident);
         self.pre.push(format!(
-            r#"{ty}[] {ident} = new {ty}[1];
+            r#"{IMINK_OBJECT}[] {name} = new {IMINK_OBJECT}[1];
                     "#,
         ));
         self.post.push(format!(
-            r#"{OO}[{oo_idx}] = {ident}[0];
+            r#"{OO}[{oo_idx}] = {name}[0];
                     "#
         ));
     }
diff --git a/idlc_codegen_java/src/interface/functions/serialization.rs b/idlc_codegen_java/src/interface/functions/serialization.rs
index 17854ab..0ace0a5 100644
--- a/idlc_codegen_java/src/interface/functions/serialization.rs
+++ b/idlc_codegen_java/src/interface/functions/serialization.rs
@@ -5,7 +5,7 @@ use idlc_codegen::serialization::Type;
 
 use crate::interface::mink_primitives::{BUNDLE_IN, BUNDLE_OUT};
 
-use crate::types::{capitalize_first_letter, change_primitive, get_struct_pair};
+use crate::types::{change_primitive, Transfer};
 
 #[derive(Debug, Clone)]
 pub struct TransportBuffer {
@@ -37,14 +37,14 @@ impl<'a> PackedPrimitives<'a> {
             &Type::Primitive(p) => {
                 let ty = change_primitive(p);
                 assignments += &format!(
-                    r#"{ty}[] {ident} = new {ty}[1];
+                    r#"{ty}[] {ident}_ptr = new {ty}[1];
                     "#
                 );
             }
             Type::SmallStruct(s) => {
                 let ty = s.ident.to_string();
                 assignments += &format!(
-                    r#"{ty}[] {ident} = new {ty}[1];
+                    r#"{ty}[] {ident}_ptr = {{new {ty}()}};
                     "#
                 );
             }
@@ -74,79 +74,40 @@ impl<'a> PackedPrimitives<'a> {
 
         let mut fields = String::new();
         for (ident, ty) in pairs {
-            match ty {
+            let is_input = in_out == BUNDLE_IN;
+            let transfer = if is_input == is_invoke {
+                Transfer::Get
+            } else {
+                Transfer::Put
+            };
+            let (place, declared) = if is_input {
+                (format!("{ident}_val"), is_invoke)
+            } else {
+                (format!("{ident}_ptr[0]"), false)
+            };
+            let value = match ty {
                 &Type::Primitive(p) => {
-                    let ty = change_primitive(p);
-                    let capitalized_ty = capitalize_first_letter(ty);
-                    if is_invoke {
-                        if in_out == BUNDLE_IN {
-                            fields.push_str(&format!(
-                                r#"{ty} {ident}={in_out}.get{capitalized_ty}();
-                    "#
-                            ));
-                        } else {
-                            fields.push_str(&format!(
-                                r#"{in_out}.put{capitalized_ty}({ident}[0]);
-                    "#
-                            ));
-                        }
-                    } else if in_out == BUNDLE_IN {
-                        fields.push_str(&format!(
-                            r#"{in_out}.put{capitalized_ty}({ident}_val);
-                "#
-                        ));
+                    let value = transfer.primitive(in_out, &place, p);
+                    if declared {
+                        format!("{} {value}", change_primitive(p))
                     } else {
-                        fields.push_str(&format!(
-                            r#"if ({ident}_ptr != null) {{
-                    {ident}_ptr[0] = {in_out}.get{capitalized_ty}();
-                }}
-                "#
-                        ));
+                        value
                     }
                 }
                 Type::SmallStruct(s) => {
-                    let mut field_idents = Vec::new();
-                    let ty = s.ident.to_string();
-                    if is_invoke && in_out == BUNDLE_IN {
-                        fields.push_str(&format!(
-                            r#"{ty} {ident} = new {ty}();
-                    "#,
-                        ));
-                    }
-                    get_struct_pair(s, &mut field_idents, "".to_string());
-                    for (field_ident, field_ty) in field_idents {
-                        let mut capitalized_ty = String::new();
-                        if let idlc_mir::Type::Primitive(p) = field_ty {
-                            capitalized_ty = capitalize_first_letter(change_primitive(p));
-                        }
-                        if is_invoke {
-                            if in_out == BUNDLE_IN {
-                                fields.push_str(&format!(
-                                    r#"{ident}.{field_ident}={BUNDLE_IN}.get{capitalized_ty}();
-                    "#,
-                                ));
-                            } else {
-                                fields.push_str(&format!(
-                                    r#"{BUNDLE_OUT}.put{capitalized_ty}({ident}[0].{field_ident});
-                    "#,
-                                ));
-                            }
-                        } else if in_out == BUNDLE_IN {
-                            fields.push_str(&format!(
-                                r#"{in_out}.put{capitalized_ty}({ident}_val.{field_ident});
-            "#,
-                            ));
-                        } else {
-                            fields.push_str(&format!(
-                                r#"if ({ident}_ptr != null) {{
-                    {ident}_ptr[0].{field_ident} = {in_out}.get{capitalized_ty}();
-                }}
-                "#,
-                            ));
-                        }
+                    let value = transfer.r#struct(in_out, &place, s);
+                    if declared {
+                        format!("{0} {place} = new {0}();\n{value}", s.ident)
+                    } else {
+                        value
                     }
                 }
             };
+            if is_input || is_invoke {
+                fields.push_str(&value);
+            } else {
+                fields.push_str(&format!("if ({ident}_ptr != null) {{\n{value}}}\n"));
+            }
         }
         let definition = fields;
         Some(TransportBuffer { definition, size })
diff --git a/idlc_codegen_java/src/interface/functions/signature.rs b/idlc_codegen_java/src/interface/functions/signature.rs
index 9b2246a..47b56eb 100644
--- a/idlc_codegen_java/src/interface/functions/signature.rs
+++ b/idlc_codegen_java/src/interface/functions/signature.rs
@@ -50,13 +50,14 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_input_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
         let ty = format!("{}[]", change_primitive(ty));
         self.inputs.push((format!("{}_val", ident), ty.to_string()));
-        self.returns.push((ident.to_string(), ty));
+        self.returns.push((format!("{}_val", ident), ty));
     }
 
     fn visit_input_struct_buffer(&mut self, ident: &Ident, ty: &StructInner) {
         let new_ty = format!("{}[]", ty.ident);
         self.inputs.push((format!("{}_val", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
+        self.returns
+            .push((format!("{}_val", ident), ty.ident.to_string()));
     }
 
     fn visit_input_object_array(
@@ -77,18 +78,20 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs
             .push((format!("{}_val", ident), change_primitive(ty).to_string()));
         self.returns
-            .push((ident.to_string(), change_primitive(ty).to_string()));
+            .push((format!("{}_val", ident), change_primitive(ty).to_string()));
     }
 
     fn visit_input_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("{}_val", ident), ty.ident.to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
+        self.returns
+            .push((format!("{}_val", ident), ty.ident.to_string()));
     }
     fn visit_input_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         self.inputs
             .push((format!("{}_val", ident), ty.ident.to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
+        self.returns
+            .push((format!("{}_val", ident), ty.ident.to_string()));
     }
 
     fn visit_input_object(&mut self, ident: &Ident, _: Option<&str>) {
@@ -97,7 +100,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs
             .push((format!("{}_val", ident), IMINK_OBJECT.to_string()));
         self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
+            .push((format!("{}_val", ident), IMINK_OBJECT.to_string()));
     }
 
     fn visit_output_primitive_buffer(&mut self, ident: &Ident, ty: Primitive) {
@@ -105,7 +108,8 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((format!("{}_ptr", ident), ty.to_string()));
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
-        self.returns.push((ident.to_string(), ty.to_string()));
+        self.returns
+            .push((format!("{}_ptr", ident), ty.to_string()));
         self.returns.push((format!("{}_len", ident), ty));
     }
 
@@ -114,7 +118,8 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs.push((format!("{}_ptr", ident), new_ty));
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
+        self.returns
+            .push((format!("{}_ptr", ident), ty.ident.to_string()));
         self.returns
             .push((format!("{}_len", ident), ty.ident.to_string()));
     }
@@ -127,7 +132,7 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         self.inputs
             .push((format!("{}_len", ident), "int".to_string()));
         self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
+            .push((format!("{}_ptr", ident), IMINK_OBJECT.to_string()));
         self.returns
             .push((format!("{}_len", ident), "int".to_string()));
     }
@@ -135,18 +140,20 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
     fn visit_output_primitive(&mut self, ident: &Ident, ty: Primitive) {
         let ty = format!("{}[]", change_primitive(ty));
         self.inputs.push((format!("{}_ptr", ident), ty.to_string()));
-        self.returns.push((ident.to_string(), ty));
+        self.returns.push((format!("{}_ptr", ident), ty));
     }
 
     fn visit_output_big_struct(&mut self, ident: &Ident, ty: &StructInner) {
         let new_ty = format!("{}[]", ty.ident);
         self.inputs.push((format!("{}_ptr", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
+        self.returns
+            .push((format!("{}_ptr", ident), ty.ident.to_string()));
     }
     fn visit_output_small_struct(&mut self, ident: &Ident, ty: &StructInner) {
         let new_ty = format!("{}[]", ty.ident);
         self.inputs.push((format!("{}_ptr", ident), new_ty));
-        self.returns.push((ident.to_string(), ty.ident.to_string()));
+        self.returns
+            .push((format!("{}_ptr", ident), ty.ident.to_string()));
     }
 
     fn visit_output_object(&mut self, ident: &Ident, _: Option<&str>) {
@@ -155,6 +162,6 @@ impl idlc_codegen::functions::ParameterVisitor for Signature {
         let ty = format!("{IMINK_OBJECT}[]");
         self.inputs.push((format!("{}_ptr", ident), ty));
         self.returns
-            .push((ident.to_string(), IMINK_OBJECT.to_string()));
+            .push((format!("{}_ptr", ident), IMINK_OBJECT.to_string()));
     }
 }
diff --git a/idlc_codegen_java/src/types.rs b/idlc_codegen_java/src/types.rs
index 4de3bb0..dfd5728 100644
--- a/idlc_codegen_java/src/types.rs
+++ b/idlc_codegen_java/src/types.rs
@@ -50,25 +50,52 @@ pub fn capitalize_first_letter(s: &str) -> String {
     s.to_case(convert_case::Case::UpperCamel)
 }
 
-pub fn get_struct_pair(
-    r#struct: &idlc_mir::StructInner,
-    result: &mut Vec<(String, idlc_mir::Type)>,
-    mut parent: String,
-) {
-    if !parent.is_empty() {
-        parent.push('.');
+/// Direction in which values are transferred between variables and a `ByteBuffer`.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Transfer {
+    Put,
+    Get,
+}
+
+impl Transfer {
+    pub fn primitive(self, buffer: &str, place: &str, ty: idlc_mir::Primitive) -> String {
+        let ty = capitalize_first_letter(change_primitive(ty));
+        match self {
+            Self::Put => format!("{buffer}.put{ty}({place});\n"),
+            Self::Get => format!("{place} = {buffer}.get{ty}();\n"),
+        }
     }
-    for field in &r#struct.fields {
-        match &field.val.0 {
-            idlc_mir::Type::Primitive(_) => {
-                result.push((format!("{parent}{}", field.ident), field.val.0.clone()))
-            }
-            idlc_mir::Type::Struct(idlc_mir::Struct::Big(s) | idlc_mir::Struct::Small(s)) => {
-                let new_parent = format!("{parent}{}", field.ident);
-                get_struct_pair(s, result, new_parent);
+
+    pub fn r#struct(self, buffer: &str, place: &str, ty: &idlc_mir::StructInner) -> String {
+        self.fields(buffer, place, ty, 0)
+    }
+
+    fn fields(self, buffer: &str, place: &str, ty: &idlc_mir::StructInner, depth: usize) -> String {
+        let mut result = String::new();
+        for field in &ty.fields {
+            let count = field.val.1.get();
+            let field_place = format!("{place}.{}", field.ident);
+            if count == 1 {
+                result.push_str(&self.field(buffer, &field_place, &field.val.0, depth));
+            } else {
+                let idx = format!("i{depth}");
+                let element_place = format!("{field_place}[{idx}]");
+                let element = self.field(buffer, &element_place, &field.val.0, depth + 1);
+                result.push_str(&format!(
+                    "for (int {idx}=0;{idx}<{count};{idx}++) {{\n{element}}}\n"
+                ));
             }
+        }
+
+        result
+    }
+
+    fn field(self, buffer: &str, place: &str, ty: &idlc_mir::Type, depth: usize) -> String {
+        match ty {
+            &idlc_mir::Type::Primitive(p) => self.primitive(buffer, place, p),
+            idlc_mir::Type::Struct(s) => self.fields(buffer, place, s.as_ref(), depth),
             idlc_mir::Type::Interface(_) => {
-                result.push((format!("{parent}{}", field.ident), field.val.0.clone()))
+                unimplemented!("Java codegen doesn't support objects in struct")
             }
             _ => unreachable!(),
         }
-- 
2.43.0


From f91d7852a7746a2c57e2228a2b73daad83412ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:35 +0000
Subject: [PATCH 26/30] fix: skip bundled outputs nobody wants in Java proxies

---
 .../src/interface/functions/serialization.rs             | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/idlc_codegen_java/src/interface/functions/serialization.rs b/idlc_codegen_java/src/interface/functions/serialization.rs
index 0ace0a5..aaa5fdd 100644
--- a/idlc_codegen_java/src/interface/functions/serialization.rs
+++ b/idlc_codegen_java/src/interface/functions/serialization.rs
@@ -106,7 +106,14 @@ impl<'a> PackedPrimitives<'a> {
             if is_input || is_invoke {
                 fields.push_str(&value);
             } else {
-                fields.push_str(&format!("if ({ident}_ptr != null) {{\n{value}}}\n"));
+                let size = ty.size();
+                fields.push_str(&format!(
+                    r#"if ({ident}_ptr != null) {{
+{value}}} else {{
+{in_out}.position({in_out}.position() + {size});
+}}
+"#
+                ));
             }
         }
         let definition = fields;
-- 
2.43.0


From 911f3c680bdf066d02273cb58da96f2e3032a066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 27/30] fix: verify included files before lowering anything to
 MIR

---
 idlc/src/lib.rs  | 11 +++++++----
 idlc/src/main.rs | 21 +++++++++++++--------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/idlc/src/lib.rs b/idlc/src/lib.rs
index 041c3f3..0cf0819 100644
--- a/idlc/src/lib.rs
+++ b/idlc/src/lib.rs
@@ -34,11 +34,14 @@ impl Language {
         struct_verifier::StructVerifier::run_pass(&idl_store, &struct_ordering)?;
 
         trace!("Verifying included files");
-        for included in idl_store.asts() {
-            functions::Functions::new().run_pass(&included)?;
-            let ordering = cycles::Cycles::new(&idl_store).run_pass(&included)?;
+        let included_asts = idl_store.asts();
+        for included in &included_asts {
+            functions::Functions::new().run_pass(included)?;
+            let ordering = cycles::Cycles::new(&idl_store).run_pass(included)?;
             struct_verifier::StructVerifier::run_pass(&idl_store, &ordering)?;
-            let mir = mir::parse_to_mir(&included, &mut idl_store);
+        }
+        for included in &included_asts {
+            let mir = mir::parse_to_mir(included, &mut idl_store);
             interface_verifier::InterfaceVerifier::new(&mir).run_pass();
         }
 
diff --git a/idlc/src/main.rs b/idlc/src/main.rs
index 8cf41da..10e5dd1 100644
--- a/idlc/src/main.rs
+++ b/idlc/src/main.rs
@@ -150,20 +150,25 @@ fn main() {
         "`StructVerifier` pass"
     );
 
+    trace!("Verifying included files");
+    let included_asts = idl_store.asts();
+    for included in &included_asts {
+        check(idlc_ast_passes::functions::Functions::new().run_pass(included));
+        let ordering = check(cycles::Cycles::new(&idl_store).run_pass(included));
+        check(struct_verifier::StructVerifier::run_pass(
+            &idl_store, &ordering,
+        ));
+    }
+
     let mir = timer::time!(mir::parse_to_mir(&ast, &mut idl_store), "Mir");
     if dump == Some(Dumpable::Mir) {
         idlc_mir::dump(mir);
         std::process::exit(0);
     }
 
-    trace!("Verifying included files");
-    for included in idl_store.asts() {
-        check(idlc_ast_passes::functions::Functions::new().run_pass(&included));
-        let ordering = check(cycles::Cycles::new(&idl_store).run_pass(&included));
-        check(struct_verifier::StructVerifier::run_pass(
-            &idl_store, &ordering,
-        ));
-        let mir = mir::parse_to_mir(&included, &mut idl_store);
+    trace!("Verifying interfaces of included files");
+    for included in &included_asts {
+        let mir = mir::parse_to_mir(included, &mut idl_store);
         interface_verifier::InterfaceVerifier::new(&mir).run_pass();
     }
 
-- 
2.43.0


From 45d8949c5c87864ff6a4f234c173dd9a4657880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:43 +0000
Subject: [PATCH 28/30] fix: reject structs whose size exceeds the machine word

---
 idlc_ast_passes/src/struct_verifier.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/idlc_ast_passes/src/struct_verifier.rs b/idlc_ast_passes/src/struct_verifier.rs
index 8e13ec7..a029fd3 100644
--- a/idlc_ast_passes/src/struct_verifier.rs
+++ b/idlc_ast_passes/src/struct_verifier.rs
@@ -38,6 +38,8 @@ pub enum Error {
     },
     #[error("struct `{parent}` contains duplicate field names: `{names:?}`")]
     StructFieldSameName { parent: Ident, names: Vec<Ident> },
+    #[error("struct `{parent}` is too large")]
+    StructTooLarge { parent: String },
 }
 
 impl StructVerifier {
@@ -78,7 +80,12 @@ impl StructVerifier {
                     });
                 }
 
-                size += i_size * count;
+                size = i_size
+                    .checked_mul(count)
+                    .and_then(|field_size| field_size.checked_add(size))
+                    .ok_or_else(|| Error::StructTooLarge {
+                        parent: r#struct.to_string(),
+                    })?;
                 alignment = alignment.max(i_alignment);
             }
 
-- 
2.43.0


From a2609d3c803546e495485c4e106d2427ac40c7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 29/30] fix: visit each struct once when looking for cycles

---
 idlc_ast_passes/src/cycles.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/idlc_ast_passes/src/cycles.rs b/idlc_ast_passes/src/cycles.rs
index 6a54bc7..a2fa5fc 100644
--- a/idlc_ast_passes/src/cycles.rs
+++ b/idlc_ast_passes/src/cycles.rs
@@ -1,7 +1,7 @@
 // Copyright (c) 2024, Qualcomm Innovation Center, Inc. All rights reserved.
 // SPDX-License-Identifier: BSD-3-Clause
 
-use std::rc::Rc;
+use std::{collections::HashSet, rc::Rc};
 
 use idlc_ast::{
     ast::Type,
@@ -13,6 +13,8 @@ use crate::{graph::Graph, idl_store::IDLStore, CompilerPass};
 pub struct Cycles<'ast> {
     struct_graph: Graph<String>,
     iface_graph: Graph<String>,
+    visited_structs: HashSet<String>,
+    visited_ifaces: HashSet<String>,
     idl_store: &'ast IDLStore,
 }
 
@@ -22,11 +24,13 @@ impl<'ast> Cycles<'ast> {
             idl_store,
             struct_graph: Graph::new(),
             iface_graph: Graph::new(),
+            visited_structs: HashSet::new(),
+            visited_ifaces: HashSet::new(),
         }
     }
 
     pub fn visit_iface_recurse(&mut self, iface: Rc<idlc_ast::Interface>) {
-        if self.iface_graph.cycle().is_some() {
+        if !self.visited_ifaces.insert(iface.ident.to_string()) {
             return;
         }
 
@@ -39,7 +43,7 @@ impl<'ast> Cycles<'ast> {
     }
 
     pub fn visit_struct_recurse(&mut self, r#struct: Rc<idlc_ast::Struct>) {
-        if self.struct_graph.cycle().is_some() {
+        if !self.visited_structs.insert(r#struct.ident.to_string()) {
             return;
         }
 
-- 
2.43.0


From 0159d72f5850b58c42a8c7757ddf3a5af52ab70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:23 +0000
Subject: [PATCH 30/30] fix: fail when the parse tree to dump cannot be made

---
 idlc_ast/src/pst.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idlc_ast/src/pst.rs b/idlc_ast/src/pst.rs
index 65c85c4..5d8501f 100644
--- a/idlc_ast/src/pst.rs
+++ b/idlc_ast/src/pst.rs
@@ -381,7 +381,7 @@ pub fn dump<P: AsRef<std::path::Path>>(path: P) {
     let duration = now.elapsed();
     match pst {
         Ok(pst) => println!("{pst:#?}"),
-        Err(e) => eprintln!("Parsing failed:\n{e}\n"),
+        Err(e) => idlc_errors::unrecoverable!("Parsing failed:\n{e}\n"),
     }
     eprintln!("'dump_pst' completed in {duration:?}");
 }
-- 
2.43.0

