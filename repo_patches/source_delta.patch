From d336e91e86121ebfe43b170d4ce66caecd02b9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 01/20] fix: line and column were wrong after a CRLF line
 terminator

---
 runtime/src/str_stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/str_stream.rs b/runtime/src/str_stream.rs
index 2465b37..cfcba4c 100644
--- a/runtime/src/str_stream.rs
+++ b/runtime/src/str_stream.rs
@@ -63,7 +63,8 @@ impl<'a> StrStream<'a>
   pub fn line_column(&self) -> (usize, usize) {
     let mut remaining = self.bytes_offset;
     let mut line_no = 1usize;
-    for line in self.raw_data.lines() {
+    // `lines()` would also strip the `\r` of a `\r\n` and make the lengths wrong.
+    for line in self.raw_data.split('\n') {
       let line_len = line.len() + 1;
       if remaining < line_len {
         break;
-- 
2.43.0


From 81ebabc7a71149f56d22f5708b69bc78ad5d1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 02/20] fix: code_snippet panicked when the length hint fell
 inside a multi-byte character

---
 runtime/src/str_stream.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/src/str_stream.rs b/runtime/src/str_stream.rs
index cfcba4c..1e29a05 100644
--- a/runtime/src/str_stream.rs
+++ b/runtime/src/str_stream.rs
@@ -141,7 +141,10 @@ impl<'a> CodeSnippet for StrStream<'a>
       String::from("<end-of-file>")
     }
     else {
-      let len = min(total_len - current_offset, len_hint);
+      let mut len = min(total_len - current_offset, len_hint);
+      while !self.raw_data.is_char_boundary(current_offset + len) {
+        len -= 1;
+      }
       String::from(&self.raw_data[current_offset..][..len])
     }
   }
-- 
2.43.0


From 3a404d9e6a000d15fa56e92befb4268d354c4d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 03/20] fix: line start positions registered in a FileMap
 drifted after CRLF line terminators

---
 runtime/src/file_map_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/file_map_stream.rs b/runtime/src/file_map_stream.rs
index d14abbe..5ebb619 100644
--- a/runtime/src/file_map_stream.rs
+++ b/runtime/src/file_map_stream.rs
@@ -50,10 +50,10 @@ impl<'a> FileMapStream<'a>
     // Mostly from Rust compiler (codemap.rs).
     if filemap.count_lines() == 0 {
       let mut byte_pos: u32 = filemap.start_pos.0;
-      for line in src.lines() {
+      for line in src.split_terminator('\n') {
         // register the start of this line
         filemap.next_line(BytePos(byte_pos));
-        // update byte_pos to include this line and the \n at the end
+        // update byte_pos to include this line (with its \r, if any) and the \n at the end
         byte_pos += line.len() as u32 + 1;
       }
     }
-- 
2.43.0


From 0e7dbb0e2de374acaaa1b83014029dcf963d80ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 04/20] fix: choices and optionals nested in a choice assign
 through the mutable reference

A success continuation extracted into a closure receives `branch_failed` and
`Option` results by mutable reference but assigned to the reference itself
(and re-borrowed it mutably), so the generated code did not compile.
---
 src/liboak/back/compiler/choice.rs   | 6 +++---
 src/liboak/back/compiler/optional.rs | 2 +-
 src/liboak/back/context.rs           | 7 ++++++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/liboak/back/compiler/choice.rs b/src/liboak/back/compiler/choice.rs
index a45dba0..bc28879 100644
--- a/src/liboak/back/compiler/choice.rs
+++ b/src/liboak/back/compiler/choice.rs
@@ -58,7 +58,7 @@ impl CompileExpr for ChoiceCompiler
       .map(|idx| {
         context.restore_scope(scope.clone());
         let b = branch_failed.clone();
-        let success: syn::Stmt = parse_quote!(#b = false;);
+        let success: syn::Stmt = parse_quote!(*#b = false;);
         continuation.compile_and_wrap(context, self.compiler, idx, success)
       })
       .collect();
@@ -76,7 +76,7 @@ impl CompileExpr for ChoiceCompiler
       .rev()
       .fold(parse_quote!(state), |accu: syn::Expr, branch|
         parse_quote!({
-          if #branch_failed {
+          if *#branch_failed {
             let mut state = state.restore_from_failure(#mark.clone());
             let state = #branch;
             #accu
@@ -86,7 +86,7 @@ impl CompileExpr for ChoiceCompiler
 
     parse_quote!({
       let #mark = state.mark();
-      let mut #branch_failed = true;
+      let #branch_failed = &mut true;
       let state = #first;
       #choice
     })
diff --git a/src/liboak/back/compiler/optional.rs b/src/liboak/back/compiler/optional.rs
index 34853c7..9a8f11e 100644
--- a/src/liboak/back/compiler/optional.rs
+++ b/src/liboak/back/compiler/optional.rs
@@ -63,7 +63,7 @@ impl OptionalCompiler
 
   fn value_constructor(result_var: Ident, result_value: syn::Expr) -> syn::Expr {
     parse_quote!({
-      #result_var = Some(#result_value);
+      *#result_var = Some(#result_value);
       state
     })
   }
diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index 170ff1a..7b7bdfd 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -141,6 +141,11 @@ impl<'a> Context<'a>
       .compile_success(self, parser_compiler, expr_idx)
       .unwrap_success();
     self.close_scope(scope);
+    // In `body` and its closures, the variable is always a mutable reference on the result.
+    let body = parse_quote!({
+      let #result_var = &mut #result_var;
+      #body
+    });
     (body, result_var)
   }
 
@@ -185,7 +190,7 @@ impl<'a> Context<'a>
       .into_iter()
       .chain(self.mut_ref_free_variables
         .iter().cloned()
-        .map(|(var, _)| parse_quote!(&mut #var)))
+        .map(|(var, _)| parse_quote!(&mut *#var)))
       .chain(self.free_variables
         .iter()
         .map(|var| parse_quote!(#var)))
-- 
2.43.0


From 0ac1b8e0b0334545dc8fafdff2e021fc3923d992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 05/20] fix: keep the enclosing variables in the continuations
 of a semantic action

A choice compiled in the scope of a semantic action extracts its success
continuation into a closure, but the variables of the enclosing scope used by
that continuation were not passed, so the generated code did not compile.
---
 src/liboak/back/compiler/semantic_action.rs |  2 +-
 src/liboak/back/context.rs                  | 21 ++++++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/liboak/back/compiler/semantic_action.rs b/src/liboak/back/compiler/semantic_action.rs
index 0b2849e..a4d85d9 100644
--- a/src/liboak/back/compiler/semantic_action.rs
+++ b/src/liboak/back/compiler/semantic_action.rs
@@ -36,7 +36,7 @@ impl CompileExpr for SemanticActionCompiler
     continuation: Continuation) -> syn::Expr
   {
     let result = context.next_free_var();
-    let scope = context.open_scope(self.expr_idx);
+    let scope = context.open_nested_scope(self.expr_idx);
     let args: Vec<syn::Expr> = context.free_variables().into_iter()
       .map(|var| parse_quote!(#var))
       .collect();
diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index 7b7bdfd..9bcdc70 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -29,6 +29,8 @@ pub struct Context<'a>
   closures: Vec<syn::Stmt>,
   name_factory: NameFactory,
   free_variables: Vec<Ident>,
+  // Variables of the enclosing scopes that are used by the success continuation.
+  enclosing_variables: Vec<Ident>,
   mark_variables: Vec<Ident>,
   mut_ref_free_variables: Vec<(Ident, syn::Type)>,
   num_combinators_compiled: usize
@@ -43,6 +45,7 @@ impl<'a> Context<'a>
       closures: vec![],
       name_factory: NameFactory::new(),
       free_variables: vec![],
+      enclosing_variables: vec![],
       mark_variables: vec![],
       mut_ref_free_variables: vec![],
       num_combinators_compiled: 0
@@ -178,6 +181,7 @@ impl<'a> Context<'a>
         .map(|(var, ty)| parse_quote!(#var: &mut #ty)))
       .chain(self.free_variables
         .iter()
+        .chain(self.enclosing_variables.iter())
         .map(|var| parse_quote!(#var:_)))
       .chain(self.mark_variables
         .iter()
@@ -193,6 +197,7 @@ impl<'a> Context<'a>
         .map(|(var, _)| parse_quote!(&mut *#var)))
       .chain(self.free_variables
         .iter()
+        .chain(self.enclosing_variables.iter())
         .map(|var| parse_quote!(#var)))
       .chain(self.mark_variables
         .iter()
@@ -260,6 +265,16 @@ impl<'a> Context<'a>
     let cardinality = self.expr_cardinality(expr_idx);
     let free_vars = self.name_factory.fresh_vars(cardinality);
     self.free_variables = free_vars;
+    self.enclosing_variables = vec![];
+    scope
+  }
+
+  // Similar to `open_scope` but the success continuation inside this scope still refers to the variables of the current scope.
+  pub fn open_nested_scope(&mut self, expr_idx: usize) -> Scope {
+    let scope = self.open_scope(expr_idx);
+    self.mut_ref_free_variables = scope.mut_ref_free_variables.clone();
+    self.enclosing_variables = scope.enclosing_variables.clone();
+    self.enclosing_variables.extend(scope.free_variables.iter().cloned());
     scope
   }
 
@@ -273,6 +288,7 @@ impl<'a> Context<'a>
     Scope::new(
       self.num_combinators_compiled,
       self.free_variables.clone(),
+      self.enclosing_variables.clone(),
       self.mut_ref_free_variables.clone()
     )
   }
@@ -281,6 +297,7 @@ impl<'a> Context<'a>
     self.num_combinators_compiled = scope.num_combinators_compiled;
     self.mut_ref_free_variables = scope.mut_ref_free_variables;
     self.free_variables = scope.free_variables;
+    self.enclosing_variables = scope.enclosing_variables;
   }
 }
 
@@ -288,14 +305,16 @@ impl<'a> Context<'a>
 pub struct Scope {
   num_combinators_compiled: usize,
   free_variables: Vec<Ident>,
+  enclosing_variables: Vec<Ident>,
   mut_ref_free_variables: Vec<(Ident, syn::Type)>
 }
 
 impl Scope {
-  fn new(n: usize, fv: Vec<Ident>, mfv: Vec<(Ident, syn::Type)>) -> Self {
+  fn new(n: usize, fv: Vec<Ident>, ev: Vec<Ident>, mfv: Vec<(Ident, syn::Type)>) -> Self {
     Scope {
       num_combinators_compiled: n,
       free_variables: fv,
+      enclosing_variables: ev,
       mut_ref_free_variables: mfv
     }
   }
-- 
2.43.0


From f68a58bc962834230f4e7c8911ea0ba436e4000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 06/20] fix: values bound before a choice are moved only by the
 branch that succeeds

The success continuation of a choice is duplicated in each branch, which moves
the values already bound (vectors, boxes...) several times: a grammar such as
["a"]* ("x" / "y") generated code rejected by the borrow checker.
---
 src/liboak/back/compiler/choice.rs            | 31 ++++++++++++++--
 .../back/compiler/syntactic_predicate.rs      |  7 +---
 src/liboak/back/context.rs                    | 36 ++++++++++++++-----
 3 files changed, 57 insertions(+), 17 deletions(-)

diff --git a/src/liboak/back/compiler/choice.rs b/src/liboak/back/compiler/choice.rs
index bc28879..7195b43 100644
--- a/src/liboak/back/compiler/choice.rs
+++ b/src/liboak/back/compiler/choice.rs
@@ -17,7 +17,8 @@ use back::compiler::*;
 pub struct ChoiceCompiler
 {
   choices: Vec<usize>,
-  compiler: ExprCompilerFn
+  compiler: ExprCompilerFn,
+  compiler_kind: CompilerKind
 }
 
 impl ChoiceCompiler
@@ -25,14 +26,16 @@ impl ChoiceCompiler
   pub fn recognizer(choices: Vec<usize>) -> ChoiceCompiler {
     ChoiceCompiler {
       choices: choices,
-      compiler: recognizer_compiler
+      compiler: recognizer_compiler,
+      compiler_kind: CompilerKind::Recognizer
     }
   }
 
   pub fn parser(choices: Vec<usize>) -> ChoiceCompiler {
     ChoiceCompiler {
       choices: choices,
-      compiler: parser_compiler
+      compiler: parser_compiler,
+      compiler_kind: CompilerKind::Parser
     }
   }
 }
@@ -45,6 +48,24 @@ impl CompileExpr for ChoiceCompiler
     // Since we copy the success continuation for each branch, to avoid code explosion, we can extract it into a closure shared by all branches under criterion maintained by the context.
     continuation = context.success_as_closure(continuation);
 
+    // The success continuation appears in several branches, so the values already bound are only taken by the branch that succeeds.
+    let cardinality = match self.compiler_kind {
+      CompilerKind::Recognizer => 0,
+      CompilerKind::Parser => context.expr_cardinality(self.choices[0])
+    };
+    let bound = context.bound_variables(cardinality);
+    continuation = continuation.map_success(|success, _|
+      if bound.is_empty() { success }
+      else {
+        parse_quote!({
+          #(let #bound = #bound.take().expect("value is taken once");)*
+          #success
+        })
+      });
+    for var in &bound {
+      context.push_mut_ref_fv(var.clone(), parse_quote!(Option<_>));
+    }
+
     let mark = context.next_mark_name();
     let branch_failed = context.next_branch_failed_name();
     context.push_mut_ref_fv(branch_failed.clone(), parse_quote!(bool));
@@ -68,6 +89,9 @@ impl CompileExpr for ChoiceCompiler
     context.pop_mut_ref_fv();
     let (success, failure) = continuation.unwrap();
     branches.push(context.compile(self.compiler, last, success, failure));
+    for _ in &bound {
+      context.pop_mut_ref_fv();
+    }
 
     let mut branches_iter = branches.into_iter();
     let first = branches_iter.next().unwrap();
@@ -85,6 +109,7 @@ impl CompileExpr for ChoiceCompiler
         }));
 
     parse_quote!({
+      #(let #bound = &mut Some(#bound);)*
       let #mark = state.mark();
       let #branch_failed = &mut true;
       let state = #first;
diff --git a/src/liboak/back/compiler/syntactic_predicate.rs b/src/liboak/back/compiler/syntactic_predicate.rs
index 9799032..5fcff65 100644
--- a/src/liboak/back/compiler/syntactic_predicate.rs
+++ b/src/liboak/back/compiler/syntactic_predicate.rs
@@ -37,12 +37,7 @@ impl SyntacticPredicateCompiler
     success_case: syn::Expr, failure_case: syn::Expr) -> syn::Expr
   {
     let mark = context.next_mark_name();
-    let expr = Continuation::new(
-        parse_quote!(state),
-        parse_quote!(state.failure())
-      )
-      .compile_success(context, recognizer_compiler, self.expr_idx)
-      .unwrap_success();
+    let expr = context.compile_recognizer_expr(self.expr_idx);
     parse_quote!(
       {
         let #mark = state.mark();
diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index 9bcdc70..331a0eb 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -118,12 +118,16 @@ impl<'a> Context<'a>
   }
 
   pub fn compile_recognizer_expr(&mut self, idx: usize) -> syn::Expr {
-    Continuation::new(
+    // The success continuation does not use any variable.
+    let scope = self.open_scope_with(vec![]);
+    let expr = Continuation::new(
       parse_quote!(state),
       parse_quote!(state.failure())
     )
     .compile_success(self, recognizer_compiler, idx)
-    .unwrap_success()
+    .unwrap_success();
+    self.close_scope(scope);
+    expr
   }
 
   pub fn value_constructor<F>(&mut self,
@@ -179,9 +183,8 @@ impl<'a> Context<'a>
       .chain(self.mut_ref_free_variables
         .iter().cloned()
         .map(|(var, ty)| parse_quote!(#var: &mut #ty)))
-      .chain(self.free_variables
+      .chain(self.owned_variables(self.free_variables.len())
         .iter()
-        .chain(self.enclosing_variables.iter())
         .map(|var| parse_quote!(#var:_)))
       .chain(self.mark_variables
         .iter()
@@ -195,9 +198,8 @@ impl<'a> Context<'a>
       .chain(self.mut_ref_free_variables
         .iter().cloned()
         .map(|(var, _)| parse_quote!(&mut *#var)))
-      .chain(self.free_variables
+      .chain(self.owned_variables(self.free_variables.len())
         .iter()
-        .chain(self.enclosing_variables.iter())
         .map(|var| parse_quote!(#var)))
       .chain(self.mark_variables
         .iter()
@@ -241,6 +243,20 @@ impl<'a> Context<'a>
     self.free_variables.clone()
   }
 
+  // The `n` first free variables and those of the enclosing scopes, without the ones accessed by mutable reference.
+  fn owned_variables(&self, n: usize) -> Vec<Ident> {
+    self.free_variables[..n].iter()
+      .chain(self.enclosing_variables.iter())
+      .filter(|var| self.mut_ref_free_variables.iter().all(|(v, _)| v != *var))
+      .cloned()
+      .collect()
+  }
+
+  // Variables owned by the success continuation and bound before an expression that binds `cardinality` variables.
+  pub fn bound_variables(&self, cardinality: usize) -> Vec<Ident> {
+    self.owned_variables(self.free_variables.len() - cardinality)
+  }
+
   pub fn push_mut_ref_fv(&mut self, mut_ref_var: Ident, mut_ref_ty: syn::Type) {
     self.mut_ref_free_variables.push((mut_ref_var,mut_ref_ty));
   }
@@ -259,11 +275,15 @@ impl<'a> Context<'a>
   }
 
   pub fn open_scope(&mut self, expr_idx: usize) -> Scope {
+    let cardinality = self.expr_cardinality(expr_idx);
+    let free_vars = self.name_factory.fresh_vars(cardinality);
+    self.open_scope_with(free_vars)
+  }
+
+  fn open_scope_with(&mut self, free_vars: Vec<Ident>) -> Scope {
     let scope = self.save_scope();
     self.num_combinators_compiled = 0;
     self.mut_ref_free_variables = vec![];
-    let cardinality = self.expr_cardinality(expr_idx);
-    let free_vars = self.name_factory.fresh_vars(cardinality);
     self.free_variables = free_vars;
     self.enclosing_variables = vec![];
     scope
-- 
2.43.0


From 4a200e555e15698b83847d97c8609ac1238e808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:45 +0000
Subject: [PATCH 07/20] fix: a rule calling a rule under inference is no longer
 reduced to its missing type

---
 src/liboak/middle/typing/type_rewriting.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/liboak/middle/typing/type_rewriting.rs b/src/liboak/middle/typing/type_rewriting.rs
index 2181984..40c5493 100644
--- a/src/liboak/middle/typing/type_rewriting.rs
+++ b/src/liboak/middle/typing/type_rewriting.rs
@@ -27,11 +27,19 @@ impl TypeRewriting
 {
   pub fn reduce_rec_entry_point(grammar: &IGrammar, rule: &Ident, ty: IType) -> IType {
     match ty {
-      Rec(ref r) if r.entry_point() == *rule => Self::reduce_rec(grammar, ty),
+      Rec(ref r) if r.entry_point() == *rule
+                 && (r.is_polymorphic() || Self::is_inferred_rec(grammar, r)) => Self::reduce_rec(grammar, ty),
       ty => ty
     }
   }
 
+  /// A recursive type can only be replaced by the type of one of its rules once all of them went through the inference.
+  fn is_inferred_rec(grammar: &IGrammar, rec_set: &RecSet) -> bool {
+    rec_set.path_set.iter()
+      .flat_map(|rec_path| rec_path.path.iter())
+      .all(|ident| grammar.type_of(grammar.expr_index_of_rule(ident)) != Infer)
+  }
+
   pub fn reduce_rec(grammar: &IGrammar, ty: IType) -> IType {
     match ty {
       Rec(r) if r.is_polymorphic() => Invisible,
-- 
2.43.0


From df88faf5fd9230e176eda49d0a7ad6c7e6a9a547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 08/20] fix: the recursive type of a cycle no longer leaks into
 the rules that call it

---
 src/liboak/middle/typing/surface.rs        | 3 ++-
 src/liboak/middle/typing/type_rewriting.rs | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/liboak/middle/typing/surface.rs b/src/liboak/middle/typing/surface.rs
index 08c0571..7e69876 100644
--- a/src/liboak/middle/typing/surface.rs
+++ b/src/liboak/middle/typing/surface.rs
@@ -65,7 +65,8 @@ impl Surface
       }
     }
     else {
-      rule_ty
+      // A rule met on a cycle keeps its recursive type, which must not leak outside of the cycle.
+      TypeRewriting::reduce_rec_entry_point(&self.grammar, rule_name, rule_ty)
     }
   }
 
diff --git a/src/liboak/middle/typing/type_rewriting.rs b/src/liboak/middle/typing/type_rewriting.rs
index 40c5493..6e34fd9 100644
--- a/src/liboak/middle/typing/type_rewriting.rs
+++ b/src/liboak/middle/typing/type_rewriting.rs
@@ -27,8 +27,8 @@ impl TypeRewriting
 {
   pub fn reduce_rec_entry_point(grammar: &IGrammar, rule: &Ident, ty: IType) -> IType {
     match ty {
-      Rec(ref r) if r.entry_point() == *rule
-                 && (r.is_polymorphic() || Self::is_inferred_rec(grammar, r)) => Self::reduce_rec(grammar, ty),
+      Rec(ref r) if Self::is_inferred_rec(grammar, r)
+                 || (r.is_polymorphic() && r.entry_point() == *rule) => Self::reduce_rec(grammar, ty),
       ty => ty
     }
   }
-- 
2.43.0


From 55d51221b2aad5235c02b8b3f444981823e6ca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 09/20] fix: an ascription nested in a discarded expression is
 not an error

---
 src/liboak/middle/typing/depth.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index 21dc3a0..32aabe4 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -202,10 +202,10 @@ impl Visitor<()> for Depth
   }
 
   fn visit_type_ascription(&mut self, this: usize, child: usize, ty: IType) {
-    if let Some(aty) = self.under_ty_ascription.clone() {
-      self.error_if_not_match_ty_ascription(this, ty.clone(), aty);
-    }
     if !self.under_unit {
+      if let Some(aty) = self.under_ty_ascription.clone() {
+        self.error_if_not_match_ty_ascription(this, ty.clone(), aty);
+      }
       self.surface_expr(child);
     }
     self.visit_expr_switch_ascription(child, Some(ty));
-- 
2.43.0


From a2555b15653ecdec3c3f2e3a22f18c8d74431038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 10/20] fix: the recursive types of the rules in a cycle are
 followed when reducing a recursive type

---
 src/liboak/middle/typing/type_rewriting.rs | 43 ++++++++++++++++------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/liboak/middle/typing/type_rewriting.rs b/src/liboak/middle/typing/type_rewriting.rs
index 6e34fd9..2b75438 100644
--- a/src/liboak/middle/typing/type_rewriting.rs
+++ b/src/liboak/middle/typing/type_rewriting.rs
@@ -35,22 +35,18 @@ impl TypeRewriting
 
   /// A recursive type can only be replaced by the type of one of its rules once all of them went through the inference.
   fn is_inferred_rec(grammar: &IGrammar, rec_set: &RecSet) -> bool {
-    rec_set.path_set.iter()
-      .flat_map(|rec_path| rec_path.path.iter())
-      .all(|ident| grammar.type_of(grammar.expr_index_of_rule(ident)) != Infer)
+    Self::types_of_cycle(grammar, rec_set).into_iter().all(|ty| ty != Infer)
   }
 
   pub fn reduce_rec(grammar: &IGrammar, ty: IType) -> IType {
     match ty {
-      Rec(r) if r.is_polymorphic() => Invisible,
-      Rec(r) => {
-        for rec_path in &r.path_set {
-          for ident in &rec_path.path {
-            let ty = grammar.type_of(grammar.expr_index_of_rule(ident));
-            match ty {
-              Rec(_) => (),
-              ty => return ty
-            }
+      Rec(ref r) if r.is_polymorphic() => Invisible,
+      Rec(ref r) => {
+        for ty in Self::types_of_cycle(grammar, r) {
+          match ty {
+            Rec(ref r) if r.is_polymorphic() => return Invisible,
+            Rec(_) => (),
+            ty => return ty
           }
         }
         Invisible
@@ -59,6 +55,29 @@ impl TypeRewriting
     }
   }
 
+  /// The types of the rules in `rec_set`, and of those in the recursive types of these rules.
+  fn types_of_cycle(grammar: &IGrammar, rec_set: &RecSet) -> Vec<IType> {
+    let mut rules: Vec<usize> = vec![];
+    let mut tys = vec![];
+    let mut path_set = rec_set.path_set.clone();
+    let mut i = 0;
+    while i < path_set.len() {
+      for ident in path_set[i].path.clone() {
+        let rule = grammar.expr_index_of_rule(&ident);
+        if !rules.contains(&rule) {
+          rules.push(rule);
+          let ty = grammar.type_of(rule);
+          if let Rec(ref r) = ty {
+            path_set.extend(r.path_set.clone());
+          }
+          tys.push(ty);
+        }
+      }
+      i += 1;
+    }
+    tys
+  }
+
   pub fn reduce_final(ty: IType) -> Type {
     match ty {
       Invisible => Type::Unit,
-- 
2.43.0


From 204879f445ab2a8b8c57ec8b2d2095d74341af45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 11/20] fix: the expressions typed by a cycle of rules are
 checked once its type is known

An ill-typed recursive grammar was accepted, or made the generation of the
parser panic.
---
 src/liboak/middle/typing/depth.rs | 36 ++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/liboak/middle/typing/depth.rs b/src/liboak/middle/typing/depth.rs
index 32aabe4..e8a6c72 100644
--- a/src/liboak/middle/typing/depth.rs
+++ b/src/liboak/middle/typing/depth.rs
@@ -35,6 +35,7 @@ impl Depth
     if engine.surface.error { return Partial::Nothing }
     engine.warn_recursive_type();
     engine.reduce_all_rec();
+    if engine.surface.error { return Partial::Nothing }
     engine.depth();
     if engine.surface.error { return Partial::Nothing }
     engine.reduce_all_invisible();
@@ -73,9 +74,42 @@ impl Depth
   fn reduce_all_rec(&mut self) {
     let tys: Vec<_> = self.surface.grammar.exprs_info.iter().map(|e| e.ty.clone()).collect();
     let tys: Vec<_> = tys.into_iter().map(|ty| TypeRewriting::reduce_rec(&self.surface.grammar, ty)).collect();
-    for (expr_info, ty) in self.surface.grammar.exprs_info.iter_mut().zip(tys.into_iter()) {
+    let mut rec_exprs = vec![];
+    for (idx, (expr_info, ty)) in self.surface.grammar.exprs_info.iter_mut().zip(tys.into_iter()).enumerate() {
+      if let Rec(_) = expr_info.ty {
+        rec_exprs.push(idx);
+      }
       expr_info.ty = ty;
     }
+    self.check_rec_exprs(rec_exprs);
+  }
+
+  /// An expression with a recursive type takes the type of its cycle, whatever it is made of, and is ignored in the choices.
+  /// Now that the types are known, we check that it really has this type, and that it is the one of the choices it occurs in.
+  fn check_rec_exprs(&mut self, rec_exprs: Vec<usize>) {
+    for this in rec_exprs.clone() {
+      let ty = self.type_of(this);
+      let actual_ty = match self.expr_by_index(this) {
+        Expression::Sequence(children) =>
+          TypeRewriting::reduce(&self.surface.grammar, Regular(Tuple(children))),
+        Expression::NonTerminalSymbol(rule) =>
+          self.type_of(self.surface.grammar.expr_index_of_rule(&rule)),
+        _ => ty.clone()
+      };
+      if !ty.is_unit_kind() {
+        self.error_if_not_match_ty_ascription(this, actual_ty, ty);
+      }
+    }
+    for this in 0..self.surface.grammar.exprs.len() {
+      let ty = self.type_of(this);
+      if let Expression::Choice(branches) = self.expr_by_index(this) {
+        for branch in branches {
+          if rec_exprs.contains(&branch) && !ty.is_unit_kind() {
+            self.error_if_not_match_ty_ascription(branch, self.type_of(branch), ty.clone());
+          }
+        }
+      }
+    }
   }
 
   fn reduce_all_invisible(&mut self) {
-- 
2.43.0


From 64bee04e1bfced12f2d6902a2ed0de3cab5d27c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:11 +0000
Subject: [PATCH 12/20] fix: a misplaced span operator is an error

`e1 .. e2` was read as `e1 . . e2`.
---
 src/liboak/front/parser.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/liboak/front/parser.rs b/src/liboak/front/parser.rs
index 24df064..fd0e5bd 100644
--- a/src/liboak/front/parser.rs
+++ b/src/liboak/front/parser.rs
@@ -322,6 +322,13 @@ impl FGrammar {
         let lit_str: LitStr = ps.parse()?;
         Some(self.alloc_expr(span, StrLiteral(lit_str.value())))
       }
+      // Misplaced `..` or `...` (it must come before the test on `.`, which also matches the first dot of these tokens).
+      else if ps.peek(Token![..]) {
+        return Err(Error::new(span,
+          format!("A span expression `.. e1 e2` must always start a sequence (in rule {}). \
+            You can force this by grouping the spanned expression with parenthesis: `e1 (.. e2)` instead of `e1 .. e2`.",
+            rule_name).as_str()));
+      }
       // Any character `.`
       else if ps.peek(Token![.]) {
         let _: Token![.] = ps.parse()?;
@@ -352,12 +359,6 @@ impl FGrammar {
         let _ = bracketed!(sub_ps in ps);
         Some(self.parse_char_class(&sub_ps, span, rule_name)?)
       }
-      else if ps.peek(Token![..]) {
-        return Err(Error::new(span,
-          format!("A span expression `.. e1 e2` must always start a sequence (in rule {}). \
-            You can force this by grouping the spanned expression with parenthesis: `e1 (.. e2)` instead of `e1 .. e2`.",
-            rule_name).as_str()));
-      }
       else {
         None
       };
-- 
2.43.0


From d9eb96e920c3368dc074dc9f22bc39ff1eb38d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:24 +0000
Subject: [PATCH 13/20] fix: an error drops the data of the parse state

---
 runtime/src/parse_state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/src/parse_state.rs b/runtime/src/parse_state.rs
index 8153d33..bf055f6 100644
--- a/runtime/src/parse_state.rs
+++ b/runtime/src/parse_state.rs
@@ -152,6 +152,7 @@ impl<S, T> ParseState<S, T> where
   #[inline(always)]
   pub fn error(&mut self, expect: &'static str) {
     self.failed = true;
+    self.data = None;
     if self.current > self.farthest_read {
       self.farthest_read = self.current.clone();
       self.expected = vec![expect];
-- 
2.43.0


From 95c76913160b43f1fd137c39b4089fab3b3145ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:54 +0000
Subject: [PATCH 14/20] fix: the branches of a choice cannot be a tuple and a
 value of unknown type

The compiler panicked while generating the parser of such a choice.
---
 src/liboak/middle/typing/ast.rs            | 7 +++++++
 src/liboak/middle/typing/type_rewriting.rs | 8 ++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/liboak/middle/typing/ast.rs b/src/liboak/middle/typing/ast.rs
index 0026c15..f374aac 100644
--- a/src/liboak/middle/typing/ast.rs
+++ b/src/liboak/middle/typing/ast.rs
@@ -311,6 +311,13 @@ impl IType
     self == &Invisible || self == &Regular(Unit)
   }
 
+  pub fn is_tuple(&self) -> bool {
+    match self {
+      Regular(Tuple(_)) => true,
+      _ => false
+    }
+  }
+
   pub fn contains_external(&self, grammar: &IGrammar) -> bool {
     match self.clone() {
       Infer | Rec(_) | Invisible => false,
diff --git a/src/liboak/middle/typing/type_rewriting.rs b/src/liboak/middle/typing/type_rewriting.rs
index 2b75438..899e4a2 100644
--- a/src/liboak/middle/typing/type_rewriting.rs
+++ b/src/liboak/middle/typing/type_rewriting.rs
@@ -188,7 +188,7 @@ impl TypeRewriting
   /// We try to unify the types of each branch of a choice expression.
   /// Let `e1:T1 / ... / en:Tn` be the annotated choice with the types in `tys`, then
   ///   1. We divide the types into two groups: recursive T1..Ti-1 (with `Rec`) and non-recursive Ti..Tn.
-  ///   2. If two types in the non-recursive set are different (except for External which unifies with other type), return Err.
+  ///   2. If two types in the non-recursive set are different (except for External which unifies with other type but tuples), return Err.
   ///   3. If there is a branch with `Rec(Poly)`, return Err.
   ///   4. Otherwise return Ok(T1)
   pub fn reduce_sum(grammar: &IGrammar, tys: Vec<IType>) -> Result<IType, RecSet> {
@@ -215,12 +215,12 @@ impl TypeRewriting
     else if non_rec_tys.len() == 1 {
       return Ok(non_rec_tys[0].clone())
     }
-    // External type unifies with the other type.
+    // External type unifies with the other type, unless it is a tuple since an external value cannot be unpacked.
     else if non_rec_tys.len() == 2 {
-      if non_rec_tys[0] == External {
+      if non_rec_tys[0] == External && !non_rec_tys[1].is_tuple() {
         return Ok(non_rec_tys[1].clone())
       }
-      else if non_rec_tys[1] == External {
+      else if non_rec_tys[1] == External && !non_rec_tys[0].is_tuple() {
         return Ok(non_rec_tys[0].clone())
       }
     }
-- 
2.43.0


From 24c86c7e4ec2a85e59d94073ed8d5f039f977439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:54 +0000
Subject: [PATCH 15/20] fix: the generated functions keep the where clause of
 the stream type

The bounds written in the where clause of the type alias Stream were dropped,
and the default types of its parameters kept, thus the generated functions did
not compile.
---
 src/liboak/back/context.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/liboak/back/context.rs b/src/liboak/back/context.rs
index 331a0eb..8495db4 100644
--- a/src/liboak/back/context.rs
+++ b/src/liboak/back/context.rs
@@ -76,10 +76,12 @@ impl<'a> Context<'a>
     let state_param = self.state_param(state_mut);
     let stream_ty = self.grammar.stream_type();
     let generics = self.grammar.stream_generics();
+    let (generics, _, where_clause) = generics.split_for_impl();
     let closures = self.closures;
     parse_quote!(
       #[inline]
       pub fn #name #generics (#state_param) -> oak_runtime::ParseState<#stream_ty, #ty>
+      #where_clause
       {
         #(#closures)*
         #body
-- 
2.43.0


From d551d74401b1f1cf02acb9daa0be5c76e574723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:13 +0000
Subject: [PATCH 16/20] fix: the warning on `(e+)*` suggests `e*`, which may
 succeed without consuming, instead of `e+`

---
 src/liboak/middle/analysis/useless_chaining.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/liboak/middle/analysis/useless_chaining.rs b/src/liboak/middle/analysis/useless_chaining.rs
index 4e46fdd..f402ad9 100644
--- a/src/liboak/middle/analysis/useless_chaining.rs
+++ b/src/liboak/middle/analysis/useless_chaining.rs
@@ -26,7 +26,7 @@
 //! e?+         Taken care of by WFA.
 //! e?*         Taken care of by WFA.
 //! e+? -> e*
-//! e+* -> e+
+//! e+* -> e*
 //! e++ -> e+
 //! e*? -> e*
 //! e*+         Taken care of by WFA.
@@ -96,7 +96,7 @@ impl <'a> UselessChaining<'a>
       (POptional, POneOrMore, false) => self.warn_useless_chaining(span, "(e+)?", "e*"),
       (POptional, PZeroOrMore, _) => self.warn_useless_chaining(span, "(e*)?", "e*"),
       (POneOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)+", "e+"),
-      (PZeroOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)*", "e+"),
+      (PZeroOrMore, POneOrMore, _) => self.warn_useless_chaining(span, "(e+)*", "e*"),
       (PZeroOrMore, PZeroOrMore, _) => self.warn_useless_chaining(span, "(e*)*", "e*"),
       (_, _, _) => false // The rest is either valid or taken care of by WFA.
     }
-- 
2.43.0


From 25c5e80cbd27b90905fae2a53348e7a558a17f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:13 +0000
Subject: [PATCH 17/20] fix: no warning on a useless chain when the inner
 operator is only the first element of a sequence

---
 src/liboak/middle/analysis/useless_chaining.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/liboak/middle/analysis/useless_chaining.rs b/src/liboak/middle/analysis/useless_chaining.rs
index f402ad9..8029426 100644
--- a/src/liboak/middle/analysis/useless_chaining.rs
+++ b/src/liboak/middle/analysis/useless_chaining.rs
@@ -153,8 +153,9 @@ impl<'a> Visitor<(PredicateOrRepeat, bool)> for InnerPredicateOrRepeat<'a> {
   }
 
 
-  fn visit_sequence(&mut self, _: usize, children: Vec<usize>) -> (PredicateOrRepeat, bool) {
-    self.visit_expr(children[0])
+  // An operator at the start of a sequence is not applied on the whole sequence: `!(!e1 e2)` is not `&e1`.
+  fn visit_sequence(&mut self, _: usize, _children: Vec<usize>) -> (PredicateOrRepeat, bool) {
+    (PNothing, false)
   }
 
   fn visit_choice(&mut self, _: usize, children: Vec<usize>) -> (PredicateOrRepeat, bool) {
-- 
2.43.0


From b8985b6921c7f62ba48ff8350a5f8e671726dc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:13 +0000
Subject: [PATCH 18/20] fix: no warning on a useless chain over a choice,
 unless all the branches are `&e`

---
 src/liboak/middle/analysis/useless_chaining.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/liboak/middle/analysis/useless_chaining.rs b/src/liboak/middle/analysis/useless_chaining.rs
index 8029426..b72254d 100644
--- a/src/liboak/middle/analysis/useless_chaining.rs
+++ b/src/liboak/middle/analysis/useless_chaining.rs
@@ -158,11 +158,12 @@ impl<'a> Visitor<(PredicateOrRepeat, bool)> for InnerPredicateOrRepeat<'a> {
     (PNothing, false)
   }
 
+  // Only `&` distributes over a choice: `&e1 / &e2` is `&(e1 / e2)`, but `!e1 / !e2` is not `!(e1 / e2)` (and similarly for `e?`, `e+` and `e*`).
   fn visit_choice(&mut self, _: usize, children: Vec<usize>) -> (PredicateOrRepeat, bool) {
     let (pred_or_repeat, mut crossed_rule) = self.visit_expr(children[0]);
     for child in children {
       let (pred_or_repeat2, crossed_rule2) = self.visit_expr(child);
-      if pred_or_repeat != pred_or_repeat2 {
+      if pred_or_repeat != pred_or_repeat2 || pred_or_repeat2 != PAnd {
         return (PNothing, false)
       }
       crossed_rule |= crossed_rule2;
-- 
2.43.0


From b5d6c331ff60abb681020b030c653cd854a1862f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:10 +0000
Subject: [PATCH 19/20] fix: the cycle of a recursive type is displayed in the
 order of the calls

---
 src/liboak/middle/typing/surface.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/liboak/middle/typing/surface.rs b/src/liboak/middle/typing/surface.rs
index 7e69876..a788677 100644
--- a/src/liboak/middle/typing/surface.rs
+++ b/src/liboak/middle/typing/surface.rs
@@ -84,12 +84,13 @@ impl Surface
   }
 
   fn infer_rec_type(&mut self, entry_rule: &Ident) -> IType {
-    let rec_path = self.recursion_path.clone();
-    let mut rec_shorter_path = vec![entry_rule.clone()];
-    rec_shorter_path.extend(
-      rec_path.into_iter()
-        .rev()
-        .take_while(|r| r != entry_rule));
+    // The rules from the entry point, in the order of their calls.
+    let mut rec_shorter_path: Vec<_> = self.recursion_path.iter().cloned()
+      .rev()
+      .take_while(|r| r != entry_rule)
+      .collect();
+    rec_shorter_path.push(entry_rule.clone());
+    rec_shorter_path.reverse();
     IType::rec(RecKind::Unit, rec_shorter_path)
   }
 
-- 
2.43.0


From 25a89d6f36688446d8a20c1e70a2d5c32cba4b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:21 +0000
Subject: [PATCH 20/20] fix: the error on a predicate without expression names
 the rule and the predicate in the right places

---
 src/liboak/front/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/liboak/front/parser.rs b/src/liboak/front/parser.rs
index fd0e5bd..322c6de 100644
--- a/src/liboak/front/parser.rs
+++ b/src/liboak/front/parser.rs
@@ -251,7 +251,7 @@ impl FGrammar {
         Err(Error::new(lo,
           format!("{} is not followed by a valid expression (in rule {}).
             Do not forget it must be in front of the expression.",
-            rule_name, pred_name).as_str()
+            pred_name, rule_name).as_str()
         ))
       }
     }
-- 
2.43.0

