From 24fc9f32de3d1a089c7a8a4fb5b2071418ec974c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:41:35 +0000
Subject: [PATCH 01/63] fix: a constant is not visible in its own initialiser

resolve_name_at_position skipped only let-bindings when the use lies in their
own initialiser, so 'const X = X;' resolved to itself: the undeclared name was
not reported and type inference ran into a query cycle (panic).
---
 .../compiler/semantic/src/semantic_index.rs   | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 5426ee5..dc69174 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -441,23 +441,22 @@ impl SemanticIndex {
                             continue;
                         }
 
-                        // Skip if usage falls inside this let initializer
-                        let skip =
-                            if let crate::definition::DefinitionKind::Let(let_ref) = &def.kind {
-                                if let Some(init_expr_id) = let_ref.value_expr_id {
-                                    if let Some(init_expr) = self.expression(init_expr_id) {
-                                        let init_span = init_expr.ast_span;
-                                        position.start >= init_span.start
-                                            && position.end <= init_span.end
-                                    } else {
-                                        false
-                                    }
-                                } else {
-                                    false
-                                }
-                            } else {
-                                false
-                            };
+                        // Skip if usage falls inside this let/const initializer
+                        let init_expr_id = match &def.kind {
+                            crate::definition::DefinitionKind::Let(let_ref) => {
+                                let_ref.value_expr_id
+                            }
+                            crate::definition::DefinitionKind::Const(const_ref) => {
+                                const_ref.value_expr_id
+                            }
+                            _ => None,
+                        };
+                        let skip = init_expr_id
+                            .and_then(|init_expr_id| self.expression(init_expr_id))
+                            .is_some_and(|init_expr| {
+                                let init_span = init_expr.ast_span;
+                                position.start >= init_span.start && position.end <= init_span.end
+                            });
                         if skip {
                             continue;
                         }
-- 
2.43.0


From 3ca96462a0402182ea37ed9c6dc95591555eae30 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:43:27 +0000
Subject: [PATCH 02/63] fix: a struct literal uses the declaration or import of
 its struct

The literal's type name was looked up in the current scope only and never
marked used, so an import referred to only by struct literals was reported
as unused.
---
 crates/compiler/semantic/src/semantic_index.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index dc69174..8e04e74 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1126,13 +1126,13 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 };
                 let usage_index = self.index.add_type_usage(type_usage);
 
-                // Attempt to link this type usage to its locally visible definition (may be a `use`).
-                // Use non-position-aware resolution here to support forward-declared top-level items
-                // until phase 1 (forward declarations) is fully in place.
+                // Link this type usage to its visible definition (may be a `use`) and mark it as
+                // used. Not position-aware: forward-declared top-level items are allowed.
                 if let Some(def_idx) = self
                     .index
-                    .latest_definition_index_by_name(self.current_scope(), name.value())
+                    .latest_definition_index_by_name_in_chain(self.current_scope(), name.value())
                 {
+                    self.index.mark_definition_used(def_idx);
                     self.index
                         .add_type_usage_to_definition(usage_index, def_idx);
                 }
-- 
2.43.0


From 18e96faab12686341ca6af2deabb5f0f55f8d328 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:44:23 +0000
Subject: [PATCH 03/63] fix: visit the target type of a cast

Its type names were not recorded as type usages, so an undeclared type in
'x as T' was not reported and an import used only there was reported unused.
---
 crates/compiler/semantic/src/semantic_index.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 8e04e74..74f394d 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1326,12 +1326,11 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 // Visit count expression normally
                 self.visit_expr(count);
             }
-            Expression::Cast {
-                expr,
-                target_type: _,
-            } => {
+            Expression::Cast { expr, target_type } => {
                 // Visit the expression being cast
                 self.visit_expr(expr);
+                // Record the type names used by the target type
+                self.visit_type_expr(target_type);
             }
             Expression::Literal(_, _) | Expression::BooleanLiteral(_) => {
                 // Leaf nodes - no sub-expressions
-- 
2.43.0


From 72788eb9f284a69519a7ee47207b3a570e7c3bbe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:49:17 +0000
Subject: [PATCH 04/63] fix: missing-return analysis follows breaks out of
 loops

'loop { break; return 1; }' and 'loop { if c { break; } return 1; }' were taken
to return on all paths although the break leaves the loop, and an infinite
loop without break was reported although its end cannot be reached. The
analysis now is that of the unreachable-code pass, where only a reachable
break lets a loop complete.
---
 .../src/validation/control_flow_validator.rs  | 109 ++++++------------
 1 file changed, 33 insertions(+), 76 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/control_flow_validator.rs b/crates/compiler/semantic/src/validation/control_flow_validator.rs
index b9c8828..dcb5357 100644
--- a/crates/compiler/semantic/src/validation/control_flow_validator.rs
+++ b/crates/compiler/semantic/src/validation/control_flow_validator.rs
@@ -78,7 +78,7 @@ impl ControlFlowValidator {
         // Find the function definition in the AST.
         if let Some(function_def) = self.find_function_in_module(parsed_module, function_name) {
             // Pass 1: Unreachable code analysis.
-            Self::analyze_for_unreachable_code_in_sequence(
+            let body_terminates = Self::analyze_for_unreachable_code_in_sequence(
                 db,
                 file,
                 &function_def.body,
@@ -88,7 +88,8 @@ impl ControlFlowValidator {
 
             // Pass 2: Missing-return analysis.
             // Cairo-M requires explicit returns for all functions, including unit-type functions.
-            if !Self::body_returns_on_all_paths(&function_def.body) {
+            // A body that control can flow past the end of misses a return on that path.
+            if !body_terminates {
                 sink.push(Diagnostic::missing_return(
                     file.file_path(db).to_string(),
                     function_name,
@@ -256,97 +257,53 @@ impl ControlFlowValidator {
     }
 
     // ---------------------------------------------------------------------
-    // Missing-return analysis
+    // Reachability helpers
     // ---------------------------------------------------------------------
 
-    /// Returns `true` if the function body guarantees a return on all paths.
-    fn body_returns_on_all_paths(statements: &[Spanned<Statement>]) -> bool {
-        if statements.is_empty() {
-            return false;
-        }
-
-        // Check for an early, hard return in all but the last statement.
-        for stmt in &statements[..statements.len() - 1] {
-            if Self::statement_guarantees_hard_return(stmt) {
-                return true;
-            }
-        }
-
-        // If no early return, the outcome depends on the last statement providing a value.
-        Self::statement_provides_return_value(statements.last().unwrap())
-    }
-
-    /// Checks if a statement can provide a return value, only explicitly (`return`).
-    fn statement_provides_return_value(stmt: &Spanned<Statement>) -> bool {
-        match stmt.value() {
-            Statement::Return { .. } => true,
-            Statement::Block(body) => Self::body_returns_on_all_paths(body),
-            Statement::If {
-                then_block,
-                else_block,
-                ..
-            } => {
-                let then_returns = Self::statement_provides_return_value(then_block);
-                // An `if` must have an `else` to guarantee a return.
-                let else_returns = else_block
-                    .as_ref()
-                    .is_some_and(|eb| Self::statement_provides_return_value(eb));
-                then_returns && else_returns
-            }
-            Statement::Loop { body } => {
-                // Loop statements can provide returns if they contain return statements
-                // TODO: This could be improved to check if all break paths lead to returns
-                Self::statement_provides_return_value(body)
-            }
-            Statement::While { .. } => {
-                // While loops might not execute, so they can't guarantee a return
-                false
-            }
-            Statement::For { .. } => {
-                // For loops might not execute, so they can't guarantee a return
-                false
-            }
-            _ => false, // `let`, `const`, `assign`, `expression`, `break`, and `continue` do not provide return values.
-        }
+    /// Returns `true` if control never flows past the end of `statements`.
+    ///
+    /// `break` and `continue` count as leaving the sequence.
+    fn sequence_terminates(statements: &[Spanned<Statement>]) -> bool {
+        statements.iter().any(Self::statement_terminates)
     }
 
-    /// Checks if a statement guarantees an *explicit* `return`. Used for statements
-    /// that are not the last in a block. Expressions do not count.
-    fn statement_guarantees_hard_return(stmt: &Spanned<Statement>) -> bool {
+    /// Returns `true` if control never flows past the end of `stmt`.
+    fn statement_terminates(stmt: &Spanned<Statement>) -> bool {
         match stmt.value() {
-            Statement::Return { .. } => true,
-            Statement::Block(body) => {
-                // A block has a hard return if any of its statements has one.
-                body.iter().any(Self::statement_guarantees_hard_return)
-            }
+            Statement::Return { .. } | Statement::Break | Statement::Continue => true,
+            Statement::Block(body) => Self::sequence_terminates(body),
             Statement::If {
                 then_block,
                 else_block,
                 ..
             } => {
-                let then_returns = Self::statement_guarantees_hard_return(then_block);
-                let else_returns = else_block
-                    .as_ref()
-                    .is_some_and(|eb| Self::statement_guarantees_hard_return(eb));
-                then_returns && else_returns
-            }
-            Statement::Loop { body } => {
-                // Check if the loop body has a hard return
-                Self::statement_guarantees_hard_return(body)
-            }
-            Statement::While { .. } | Statement::For { .. } => {
-                // While and for loops might not execute, so they don't guarantee hard returns
-                false
+                Self::statement_terminates(then_block)
+                    && else_block
+                        .as_ref()
+                        .is_some_and(|eb| Self::statement_terminates(eb))
             }
-            _ => false, // let, const, assign, expression, break, and continue are not hard returns.
+            Statement::Loop { body } => !Self::contains_break(body),
+            // While and for loops might not execute at all.
+            _ => false,
         }
     }
 
-    /// Check if a statement contains any break statements
+    /// Check if a statement contains a reachable break out of the enclosing loop.
     fn contains_break(stmt: &Spanned<Statement>) -> bool {
         match stmt.value() {
             Statement::Break => true,
-            Statement::Block(statements) => statements.iter().any(Self::contains_break),
+            Statement::Block(statements) => {
+                for stmt in statements {
+                    if Self::contains_break(stmt) {
+                        return true;
+                    }
+                    if Self::statement_terminates(stmt) {
+                        // Whatever follows is unreachable.
+                        return false;
+                    }
+                }
+                false
+            }
             Statement::If {
                 then_block,
                 else_block,
-- 
2.43.0


From 9a0db19d58934baa8d52ff487901eae65270bc9c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:40:59 +0000
Subject: [PATCH 05/63] fix: visit the type annotation of a constant

---
 crates/compiler/semantic/src/semantic_index.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 74f394d..8f6c6a6 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1565,6 +1565,7 @@ where
                     self.with_expected_type(Some(ty.clone()), |builder| {
                         builder.visit_expr(&const_def.value);
                     });
+                    self.visit_type_expr(ty);
                 } else {
                     self.visit_expr(&const_def.value);
                 }
@@ -1683,6 +1684,7 @@ where
             self.with_expected_type(Some(ty.clone()), |builder| {
                 builder.visit_expr(&const_def_inner.value);
             });
+            self.visit_type_expr(ty);
         } else {
             self.visit_expr(&const_def_inner.value);
         }
-- 
2.43.0


From c6aaa34e4e37c377e06935e395c668f4ef2f8f1a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:44:24 +0000
Subject: [PATCH 06/63] fix: the step of a for loop does not see declarations
 of its unbraced body

---
 crates/compiler/semantic/src/semantic_index.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 8f6c6a6..2f3cfb5 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1540,12 +1540,13 @@ where
                             },
                         );
 
-                        // 3. Body (inside loop, so break/continue are valid)
+                        // 3. Step statement (runs after each iteration, but is written before the
+                        // body: it must not see what an unbraced body declares)
                         builder.loop_depth += 1;
-                        builder.visit_stmt(body);
-
-                        // 4. Step statement (runs after each iteration, still in loop scope)
                         builder.visit_stmt(step);
+
+                        // 4. Body (inside loop, so break/continue are valid)
+                        builder.visit_stmt(body);
                         builder.loop_depth -= 1;
                     },
                 );
-- 
2.43.0


From 08439bc9b9d2b341ad4252d16b9f24f13cf34100 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:54:40 +0000
Subject: [PATCH 07/63] fix: type the count of a new expression independently
 of the enclosing annotation

---
 crates/compiler/semantic/src/semantic_index.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 2f3cfb5..9e97034 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1323,8 +1323,10 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
             Expression::New { elem_type, count } => {
                 // Leverage existing TypeExpr visitor to record type usages (and nested types)
                 self.visit_type_expr(elem_type);
-                // Visit count expression normally
-                self.visit_expr(count);
+                // The count is a felt whatever type is expected of the `new` expression
+                self.with_expected_type(None, |builder| {
+                    builder.visit_expr(count);
+                });
             }
             Expression::Cast { expr, target_type } => {
                 // Visit the expression being cast
-- 
2.43.0


From 3c0a49b54ea5e7e163899d41f69aae8e8d9774db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:54:40 +0000
Subject: [PATCH 08/63] fix: a return expression takes its context from its own
 function, not the first of the module

---
 .../compiler/semantic/src/type_resolution.rs  | 66 ++++---------------
 1 file changed, 14 insertions(+), 52 deletions(-)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index 1290820..442e0e0 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -336,58 +336,20 @@ pub fn expression_semantic_type<'db>(
             }
             Origin::Condition { .. } => Some(TypeId::new(db, TypeData::Bool)),
             Origin::ReturnExpr => {
-                // Get the function's return type as context for return expressions
-                // We need to find the containing function to get its return type
-
-                // Walk up the scope hierarchy to find a function scope
-                let expr_scope = expr_info.scope_id;
-                let mut current_scope = Some(expr_scope);
-
-                let mut result = None;
-                while let Some(scope_id) = current_scope {
-                    // Check if this scope has a function definition
-                    for (def_idx, def) in semantic_index.all_definitions() {
-                        if let DefinitionKind::Function(_func_def) = &def.kind {
-                            // Check if this function's scope contains our expression
-                            // Functions create a new scope, so we need to check if our expression
-                            // is within the function's body scope
-                            if def.scope_id == scope_id
-                                || semantic_index
-                                    .scope(expr_scope)
-                                    .and_then(|s| {
-                                        let mut parent = s.parent;
-                                        while let Some(p) = parent {
-                                            if p == def.scope_id {
-                                                return Some(true);
-                                            }
-                                            parent =
-                                                semantic_index.scope(p).and_then(|ps| ps.parent);
-                                        }
-                                        None
-                                    })
-                                    .unwrap_or(false)
-                            {
-                                // Found the containing function, get its signature
-                                let def_id = DefinitionId::new(db, file, def_idx);
-                                if let Some(signature) =
-                                    function_semantic_signature(db, crate_id, def_id)
-                                {
-                                    result = Some(signature.return_type(db));
-                                    break;
-                                }
-                            }
-                        }
-                    }
-
-                    if result.is_some() {
-                        break;
-                    }
-
-                    // Move to parent scope
-                    current_scope = semantic_index.scope(scope_id).and_then(|s| s.parent);
-                }
-
-                result
+                // The context of a return expression is the return type of the function
+                // whose definition encloses it.
+                semantic_index
+                    .all_definitions()
+                    .find(|(_, def)| {
+                        matches!(def.kind, DefinitionKind::Function(_))
+                            && def.full_span.start <= expr_info.ast_span.start
+                            && expr_info.ast_span.end <= def.full_span.end
+                    })
+                    .and_then(|(def_idx, _)| {
+                        let def_id = DefinitionId::new(db, file, def_idx);
+                        function_semantic_signature(db, crate_id, def_id)
+                    })
+                    .map(|signature| signature.return_type(db))
             }
             Origin::StructField { parent, field, .. } => {
                 semantic_index.expression(*parent).and_then(|parent_info| {
-- 
2.43.0


From adcc6dd9670d7cce4c93dbe789f7c07f4486c946 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:54:40 +0000
Subject: [PATCH 09/63] fix: the immediate context of a literal outranks the
 annotation of the enclosing let

---
 .../compiler/semantic/src/type_resolution.rs  | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index 442e0e0..cf173b7 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -400,7 +400,19 @@ pub fn expression_semantic_type<'db>(
                 }
             }
 
-            // Priority 2: Check for expected type from AST (e.g., let x: u32 = 42)
+            // Priority 2: Check for context from propagated type (e.g., in x + 1 where x is u32).
+            // It is closer to the literal than the annotation of an enclosing `let`.
+            if let Some(context_type) = context_expected {
+                // If the context expects a numeric primitive, use it
+                match context_type.data(db) {
+                    TypeData::U32 | TypeData::Felt => {
+                        return context_type;
+                    }
+                    _ => {}
+                }
+            }
+
+            // Priority 3: Check for expected type from AST (e.g., let x: u32 = 42)
             if let Some(type_ast) = expr_info.expected_type_ast.clone() {
                 // We found an explicit type annotation. Resolve it.
                 let expected_type =
@@ -414,17 +426,6 @@ pub fn expression_semantic_type<'db>(
                 }
             }
 
-            // Priority 3: Check for context from propagated type (e.g., in x + 1 where x is u32)
-            if let Some(context_type) = context_expected {
-                // If the context expects a numeric primitive, use it
-                match context_type.data(db) {
-                    TypeData::U32 | TypeData::Felt => {
-                        return context_type;
-                    }
-                    _ => {}
-                }
-            }
-
             // Default: If no specific context is found, default to `felt`.
             TypeId::new(db, TypeData::Felt)
         }
-- 
2.43.0


From b7439ba0483072a5e4c9daebf6a815d32b50313e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:55:47 +0000
Subject: [PATCH 10/63] fix: do not look up the parameters of an imported
 function in the calling module

---
 .../semantic/src/validation/type_validator.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index b24c854..c5daff2 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -594,15 +594,20 @@ impl TypeValidator {
                         );
 
                         if !are_types_compatible(db, arg_type, *param_type) {
-                            // Find the parameter's AST to get its span
+                            // Find the parameter's AST to get its span, if the function is
+                            // declared in this module (`index` knows no other definitions).
                             let func_def_id = signature_id.definition_id(db);
-                            let func_def = index.definition(func_def_id.id_in_file(db)).unwrap();
-                            let param_type_span =
-                                if let DefinitionKind::Function(func_ref) = &func_def.kind {
+                            let func_def = if func_def_id.file(db) == file {
+                                index.definition(func_def_id.id_in_file(db))
+                            } else {
+                                None
+                            };
+                            let param_type_span = match func_def.map(|def| &def.kind) {
+                                Some(DefinitionKind::Function(func_ref)) => {
                                     func_ref.params_ast.get(arg_idx).map(|p| p.1.span())
-                                } else {
-                                    None
-                                };
+                                }
+                                _ => None,
+                            };
 
                             let mut diag = Diagnostic::error(
                                 DiagnosticCode::TypeMismatch,
-- 
2.43.0


From fd5d1dbc52ceb1afcf07270a41e0cd78b88e65ad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:55:47 +0000
Subject: [PATCH 11/63] fix: check the value of a top-level constant against
 its declared type

---
 .../semantic/src/validation/type_validator.rs | 85 ++++++++++---------
 1 file changed, 47 insertions(+), 38 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/type_validator.rs b/crates/compiler/semantic/src/validation/type_validator.rs
index c5daff2..75db6c1 100644
--- a/crates/compiler/semantic/src/validation/type_validator.rs
+++ b/crates/compiler/semantic/src/validation/type_validator.rs
@@ -16,13 +16,14 @@ use std::collections::HashSet;
 use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSink};
 use cairo_m_compiler_parser::ParsedModule;
 use cairo_m_compiler_parser::parser::{
-    BinaryOp, Expression, FunctionDef, Pattern, Spanned, Statement, TopLevelItem, TypeExpr,
+    BinaryOp, ConstDef, Expression, FunctionDef, Pattern, Spanned, Statement, TopLevelItem, TypeExpr,
     UnaryOp, parse_file,
 };
 use chumsky::span::SimpleSpan;
 
 use crate::builtins::{BuiltinFn, is_builtin_function_name};
 use crate::db::{Crate, SemanticDb};
+use crate::place::FileScopeId;
 use crate::semantic_index::{DefinitionId as SemDefinitionId, ExpressionInfo};
 use crate::type_resolution::{
     are_types_compatible, definition_semantic_type as sem_definition_type,
@@ -79,6 +80,14 @@ impl Validator for TypeValidator {
                     Self::check_for_nested_arrays(db, file, &param.type_expr, sink);
                 }
             }
+
+            // The value of a top-level constant must have its declared type
+            if let TopLevelItem::Const(const_spanned) = item
+                && let Some(scope_id) = index.root_scope()
+            {
+                let const_def = const_spanned.value();
+                self.check_const_types(db, crate_id, file, index, const_def, scope_id, sink);
+            }
         }
 
         for (_def_idx, definition) in index.all_definitions() {
@@ -1419,43 +1428,8 @@ impl TypeValidator {
                 let _expr_id = index.expression_id_by_span(expr.span());
             }
             Statement::Const(const_def) => {
-                // Validate that the const value type matches the declared type
-                if let Some(ref type_ast) = const_def.ty {
-                    if let Some(value_expr_id) = index.expression_id_by_span(const_def.value.span())
-                    {
-                        // Get the declared type
-                        let declared_type = resolve_ast_type(
-                            db,
-                            crate_id,
-                            file,
-                            type_ast.clone(),
-                            index.scope_for_span(stmt.span()).unwrap(),
-                        );
-
-                        // Get the actual value type
-                        let value_type = expression_semantic_type(
-                            db,
-                            crate_id,
-                            file,
-                            value_expr_id,
-                            Some(declared_type),
-                        );
-
-                        // Check compatibility
-                        if !are_types_compatible(db, value_type, declared_type) {
-                            sink.push(
-                                Diagnostic::error(
-                                    DiagnosticCode::TypeMismatch,
-                                    format!(
-                                        "Type mismatch in const declaration: expected `{}`, got `{}`",
-                                        declared_type.data(db).display_name(db),
-                                        value_type.data(db).display_name(db)
-                                    ),
-                                )
-                                .with_location(file.file_path(db).to_string(), const_def.value.span()),
-                            );
-                        }
-                    }
+                if let Some(scope_id) = index.scope_for_span(stmt.span()) {
+                    self.check_const_types(db, crate_id, file, index, const_def, scope_id, sink);
                 }
             }
             Statement::Loop { body } => {
@@ -1555,6 +1529,41 @@ impl TypeValidator {
         }
     }
 
+    /// Check that the value of a constant has its declared type
+    fn check_const_types(
+        &self,
+        db: &dyn SemanticDb,
+        crate_id: Crate,
+        file: File,
+        index: &SemanticIndex,
+        const_def: &ConstDef,
+        scope_id: FileScopeId,
+        sink: &dyn DiagnosticSink,
+    ) {
+        let Some(type_ast) = &const_def.ty else {
+            return;
+        };
+        let Some(value_expr_id) = index.expression_id_by_span(const_def.value.span()) else {
+            return;
+        };
+        let declared_type = resolve_ast_type(db, crate_id, file, type_ast.clone(), scope_id);
+        let value_type =
+            expression_semantic_type(db, crate_id, file, value_expr_id, Some(declared_type));
+        if !are_types_compatible(db, value_type, declared_type) {
+            sink.push(
+                Diagnostic::error(
+                    DiagnosticCode::TypeMismatch,
+                    format!(
+                        "Type mismatch in const declaration: expected `{}`, got `{}`",
+                        declared_type.data(db).display_name(db),
+                        value_type.data(db).display_name(db)
+                    ),
+                )
+                .with_location(file.file_path(db).to_string(), const_def.value.span()),
+            );
+        }
+    }
+
     /// Check types for let statements
     #[allow(clippy::too_many_arguments)]
     fn check_let_statement_types(
-- 
2.43.0


From a1865270566aabce132792eae231fc9c0d98fb6f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:58:09 +0000
Subject: [PATCH 12/63] fix: the negation of a variable is not a negative
 literal

---
 .../compiler/semantic/src/validation/literal_validator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/literal_validator.rs b/crates/compiler/semantic/src/validation/literal_validator.rs
index 40cf214..de71cf2 100644
--- a/crates/compiler/semantic/src/validation/literal_validator.rs
+++ b/crates/compiler/semantic/src/validation/literal_validator.rs
@@ -156,8 +156,8 @@ impl LiteralValidator {
             }
             Expression::UnaryOp {
                 op: UnaryOp::Neg,
-                expr: _,
-            } => {
+                expr: operand,
+            } if matches!(operand.value(), Expression::Literal(..)) => {
                 // Negative values are not allowed for u32
                 sink.push(
                     Diagnostic::error(
@@ -212,8 +212,8 @@ impl LiteralValidator {
             }
             Expression::UnaryOp {
                 op: UnaryOp::Neg,
-                expr: _,
-            } => {
+                expr: operand,
+            } if matches!(operand.value(), Expression::Literal(..)) => {
                 // Negative values are not allowed for felt in Cairo-M (uses M31 field)
                 sink.push(
                     Diagnostic::error(
-- 
2.43.0


From 0af6efd2f3b0deb228479448ff3d03ea1e8fcc2a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:58:14 +0000
Subject: [PATCH 13/63] fix: a literal argument of an imported function takes
 the type of its parameter

---
 crates/compiler/semantic/src/type_resolution.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index cf173b7..d14c53c 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -322,13 +322,15 @@ pub fn expression_semantic_type<'db>(
                         Expression::Identifier(_name) => semantic_index
                             .definition_for_identifier_expr(*callee)
                             .and_then(|(def_idx, _)| {
+                                // Follows imports to the function they name
                                 let def_id = DefinitionId::new(db, file, def_idx);
-                                function_semantic_signature(db, crate_id, def_id).and_then(
-                                    |signature_id| {
-                                        let params = signature_id.params(db);
-                                        params.get(*index).map(|(_, param_type)| *param_type)
-                                    },
-                                )
+                                match definition_semantic_type(db, crate_id, def_id).data(db) {
+                                    TypeData::Function(signature_id) => signature_id
+                                        .params(db)
+                                        .get(*index)
+                                        .map(|(_, param_type)| *param_type),
+                                    _ => None,
+                                }
                             }),
                         _ => None,
                     }
-- 
2.43.0


From 8e8ee682a61c9d9e53e4b3f09daeddddd62bfb02 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:58:59 +0000
Subject: [PATCH 14/63] fix: report out-of-range integer literals outside of
 annotated definitions too

---
 .../src/validation/literal_validator.rs       | 45 ++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/semantic/src/validation/literal_validator.rs b/crates/compiler/semantic/src/validation/literal_validator.rs
index de71cf2..415edc2 100644
--- a/crates/compiler/semantic/src/validation/literal_validator.rs
+++ b/crates/compiler/semantic/src/validation/literal_validator.rs
@@ -5,11 +5,14 @@
 //! - Detects negative literals (unary negation on literals)
 //! - Future: other bounded integer types
 
+use std::collections::HashSet;
+
 use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSink};
 use cairo_m_compiler_parser::parser::{Expression, NamedType, UnaryOp};
 
 use crate::db::{Crate, SemanticDb};
-use crate::type_resolution::definition_semantic_type;
+use crate::semantic_index::Origin;
+use crate::type_resolution::{definition_semantic_type, expression_semantic_type};
 use crate::types::TypeData;
 use crate::validation::Validator;
 use crate::{DefinitionKind, File, SemanticIndex};
@@ -33,10 +36,19 @@ impl Validator for LiteralValidator {
         index: &SemanticIndex,
         sink: &dyn DiagnosticSink,
     ) {
+        // Values checked with their definition, and values whose definition states no type
+        let mut defined_values = HashSet::new();
+        let mut unannotated_values = HashSet::new();
+
         // Check all let/const definitions with explicit u32 or felt type
         for (def_idx, definition) in index.all_definitions() {
             match &definition.kind {
                 DefinitionKind::Let(let_ref) => {
+                    match (&let_ref.explicit_type_ast, let_ref.value_expr_id) {
+                        (Some(_), Some(value)) => defined_values.insert(value),
+                        (None, Some(value)) => unannotated_values.insert(value),
+                        _ => false,
+                    };
                     // Check if this is explicitly typed as u32 or felt
                     if let Some(type_expr) = &let_ref.explicit_type_ast {
                         if let cairo_m_compiler_parser::parser::TypeExpr::Named(type_name) =
@@ -77,6 +89,7 @@ impl Validator for LiteralValidator {
                     }
                 }
                 DefinitionKind::Const(const_ref) => {
+                    defined_values.extend(const_ref.value_expr_id);
                     // For const, we need to infer the type from the definition
                     let def_id = crate::semantic_index::DefinitionId::new(db, file, def_idx);
                     let def_type = definition_semantic_type(db, crate_id, def_id);
@@ -116,6 +129,36 @@ impl Validator for LiteralValidator {
                 _ => {}
             }
         }
+
+        // Check the remaining literals where their type does not depend on a larger expression
+        for (expr_id, expr_info) in index.all_expressions() {
+            let Expression::Literal(_, suffix) = &expr_info.ast_node else {
+                continue;
+            };
+            if defined_values.contains(&expr_id) {
+                continue;
+            }
+            let typed_in_place = suffix.is_some()
+                || unannotated_values.contains(&expr_id)
+                || matches!(
+                    expr_info.origin,
+                    Origin::Arg { .. }
+                        | Origin::AssignmentRhs { .. }
+                        | Origin::ReturnExpr
+                        | Origin::StructField { .. }
+                );
+            let is_felt = typed_in_place
+                && matches!(
+                    expression_semantic_type(db, crate_id, file, expr_id, None).data(db),
+                    TypeData::Felt
+                );
+            // No integer type holds more than a u32
+            if is_felt {
+                self.check_felt_literal(db, &expr_info.ast_node, expr_info.ast_span, file, sink);
+            } else {
+                self.check_u32_literal(db, &expr_info.ast_node, expr_info.ast_span, file, sink);
+            }
+        }
     }
 
     fn name(&self) -> &'static str {
-- 
2.43.0


From da23d347e12f4472438c7432ac0da26caee35b9a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:02:00 +0000
Subject: [PATCH 15/63] fix: operands that disagree under the expected type are
 typed without it

---
 .../compiler/semantic/src/type_resolution.rs  | 58 +++++++++----------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index d14c53c..a52ca8a 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -515,49 +515,47 @@ pub fn expression_semantic_type<'db>(
                 BinaryOp::Add | BinaryOp::Mul | BinaryOp::Eq | BinaryOp::Neq
             );
 
-            let (left_type, right_type) = if is_commutative {
-                // Check if left is a literal and right has a concrete type
-                let left_expr = &semantic_index.expression(left_id).unwrap().ast_node;
-                let right_expr = &semantic_index.expression(right_id).unwrap().ast_node;
-
-                let left_is_unsuffixed_literal = matches!(left_expr, Expression::Literal(_, None));
-                let right_is_unsuffixed_literal =
-                    matches!(right_expr, Expression::Literal(_, None));
+            let left_is_unsuffixed_literal = matches!(
+                semantic_index.expression(left_id).unwrap().ast_node,
+                Expression::Literal(_, None)
+            );
+            let right_is_unsuffixed_literal = matches!(
+                semantic_index.expression(right_id).unwrap().ast_node,
+                Expression::Literal(_, None)
+            );
 
-                if left_is_unsuffixed_literal && !right_is_unsuffixed_literal {
+            let infer_operands = |context: Option<TypeId<'db>>| {
+                if is_commutative && left_is_unsuffixed_literal && !right_is_unsuffixed_literal {
                     // Infer right first, then use it as context for left
                     let right_type =
-                        expression_semantic_type(db, crate_id, file, right_id, context_expected);
+                        expression_semantic_type(db, crate_id, file, right_id, context);
                     let left_type =
                         expression_semantic_type(db, crate_id, file, left_id, Some(right_type));
                     (left_type, right_type)
                 } else {
-                    // Default behavior: left first, then right with left as context
-                    let left_type =
-                        expression_semantic_type(db, crate_id, file, left_id, context_expected);
+                    // Left first, then right with left as context
+                    let left_type = expression_semantic_type(db, crate_id, file, left_id, context);
                     let right_type =
                         expression_semantic_type(db, crate_id, file, right_id, Some(left_type));
                     (left_type, right_type)
                 }
-            } else {
-                // Non-commutative operators: always left first, then right
-                let left_type =
-                    expression_semantic_type(db, crate_id, file, left_id, context_expected);
-                let right_type =
-                    expression_semantic_type(db, crate_id, file, right_id, Some(left_type));
-                (left_type, right_type)
+            };
+            let result_of = |(left_type, right_type): (TypeId<'db>, TypeId<'db>)| {
+                get_binary_op_signatures(db)
+                    .into_iter()
+                    .find(|signature| {
+                        signature.op == *op
+                            && are_types_compatible(db, left_type, signature.left)
+                            && are_types_compatible(db, right_type, signature.right)
+                    })
+                    .map(|signature| signature.result)
             };
 
-            for signature in get_binary_op_signatures(db) {
-                if signature.op == *op
-                    && are_types_compatible(db, left_type, signature.left)
-                    && are_types_compatible(db, right_type, signature.right)
-                {
-                    return signature.result;
-                }
-            }
-
-            TypeId::new(db, TypeData::Error)
+            // Operands that do not agree under the expected type have the type they have
+            // without it, which is what the type validator checks.
+            result_of(infer_operands(context_expected))
+                .or_else(|| result_of(infer_operands(None)))
+                .unwrap_or_else(|| TypeId::new(db, TypeData::Error))
         }
         Expression::MemberAccess { object, field } => {
             // Handle potential missing expression ID gracefully
-- 
2.43.0


From 24977aa4671adddd60f3ce76d00116a64d4966c2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:14:32 +0000
Subject: [PATCH 16/63] fix: a member, element or call does not pass its
 expected type down to its operand

---
 .../compiler/semantic/src/semantic_index.rs   | 41 +++++++++++--------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 9e97034..48ffd6c 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -1092,29 +1092,32 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 self.visit_expr(inner);
             }
             Expression::FunctionCall { callee, args } => {
-                self.visit_expr(callee);
-                // Get the callee expression ID for context
-                if let Some(callee_expr_id) = self.index.expression_id_by_span(callee.span()) {
-                    for (index, arg) in args.iter().enumerate() {
-                        let arg_origin = Origin::Arg {
-                            callee: callee_expr_id,
-                            index,
-                        };
-                        self.visit_expr_with_origin(arg, arg_origin);
-                    }
-                } else {
-                    // Fallback: visit arguments without special origin if callee not found
-                    for arg in args {
-                        self.visit_expr(arg);
+                // What is expected of the result says nothing about the callee and arguments
+                self.with_expected_type(None, |builder| {
+                    builder.visit_expr(callee);
+                    // Get the callee expression ID for context
+                    if let Some(callee) = builder.index.expression_id_by_span(callee.span()) {
+                        for (index, arg) in args.iter().enumerate() {
+                            let arg_origin = Origin::Arg { callee, index };
+                            builder.visit_expr_with_origin(arg, arg_origin);
+                        }
+                    } else {
+                        // Fallback: visit arguments without special origin if callee not found
+                        for arg in args {
+                            builder.visit_expr(arg);
+                        }
                     }
-                }
+                });
             }
             Expression::MemberAccess { object, .. } => {
-                self.visit_expr(object);
+                // What is expected of the member says nothing about the object
+                self.with_expected_type(None, |builder| {
+                    builder.visit_expr(object);
+                });
             }
             Expression::IndexAccess { array, index } => {
-                self.visit_expr(array);
                 self.with_expected_type(None, |builder| {
+                    builder.visit_expr(array);
                     builder.visit_expr(index);
                 });
             }
@@ -1255,7 +1258,9 @@ impl<'db, 'sink> SemanticIndexBuilder<'db, 'sink> {
                 }
             }
             Expression::TupleIndex { tuple, .. } => {
-                self.visit_expr(tuple);
+                self.with_expected_type(None, |builder| {
+                    builder.visit_expr(tuple);
+                });
             }
             Expression::ArrayLiteral(elements) => {
                 // If we have an array type hint, propagate the element type to all elements
-- 
2.43.0


From 47374ad0541b876cafa4dee87fe349328df0a163 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 17/63] fix: a top-level constant or import that another module
 imports is not unused

---
 crates/compiler/semantic/src/db.rs            | 26 +++++++++++++++++++
 .../semantic/src/validation/scope_check.rs    | 20 ++++++++++++--
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/semantic/src/db.rs b/crates/compiler/semantic/src/db.rs
index 9405b30..2836c28 100644
--- a/crates/compiler/semantic/src/db.rs
+++ b/crates/compiler/semantic/src/db.rs
@@ -257,6 +257,32 @@ pub fn project_import_graph(db: &dyn SemanticDb, crate_id: Crate) -> HashMap<Str
     graph
 }
 
+/// The items imported anywhere in the project, as (module, item) pairs.
+#[salsa::tracked]
+pub fn project_imported_items(
+    db: &dyn SemanticDb,
+    crate_id: Crate,
+) -> std::collections::BTreeSet<(String, String)> {
+    let mut imported = std::collections::BTreeSet::new();
+    for parsed_module in project_parsed_modules(db, crate_id).values() {
+        for item in parsed_module.items() {
+            if let TopLevelItem::Use(use_spanned) = item {
+                let use_stmt = use_spanned.value();
+                let module = use_stmt
+                    .path
+                    .iter()
+                    .map(|p| p.value().as_str())
+                    .collect::<Vec<_>>()
+                    .join("::");
+                for name in use_stmt.items.names() {
+                    imported.insert((module.clone(), name.to_string()));
+                }
+            }
+        }
+    }
+    imported
+}
+
 fn detect_import_cycle(graph: &HashMap<String, Vec<String>>) -> Option<Vec<String>> {
     let mut visited: HashMap<String, i32> = HashMap::new();
     let mut path: Vec<String> = Vec::new();
diff --git a/crates/compiler/semantic/src/validation/scope_check.rs b/crates/compiler/semantic/src/validation/scope_check.rs
index 036bd9e..7b5722f 100644
--- a/crates/compiler/semantic/src/validation/scope_check.rs
+++ b/crates/compiler/semantic/src/validation/scope_check.rs
@@ -53,7 +53,7 @@ impl Validator for ScopeValidator {
 
         // Check each scope in this module
         for (scope_id, scope) in index.scopes() {
-            self.check_scope(scope_id, scope, file, db, index, sink);
+            self.check_scope(scope_id, scope, file, db, crate_id, index, sink);
         }
     }
 
@@ -80,11 +80,12 @@ impl ScopeValidator {
         _scope: &crate::Scope,
         file: File,
         db: &dyn SemanticDb,
+        crate_id: Crate,
         index: &SemanticIndex,
         sink: &dyn DiagnosticSink,
     ) {
         // Check for unused variables (but not in the global scope for functions/structs)
-        self.check_unused_variables(scope_id, file, db, index, sink);
+        self.check_unused_variables(scope_id, file, db, crate_id, index, sink);
     }
 
     /// Check for unused variables (warnings for local variables)
@@ -101,9 +102,16 @@ impl ScopeValidator {
         scope_id: crate::FileScopeId,
         file: File,
         db: &dyn SemanticDb,
+        crate_id: Crate,
         index: &SemanticIndex,
         sink: &dyn DiagnosticSink,
     ) {
+        // Top-level items may be used by the modules that import them
+        let module_name = if index.root_scope() == Some(scope_id) {
+            crate::db::module_name_for_file(db, crate_id, file)
+        } else {
+            None
+        };
         for (def_idx, def) in index.definitions_in_scope(scope_id) {
             // Only warn for non-function/struct items
             let is_func_or_struct = matches!(
@@ -122,6 +130,14 @@ impl ScopeValidator {
             if index.is_definition_used(def_idx) {
                 continue;
             }
+            // Skip if imported by another module
+            if let Some(module_name) = &module_name {
+                if crate::db::project_imported_items(db, crate_id)
+                    .contains(&(module_name.clone(), def.name.clone()))
+                {
+                    continue;
+                }
+            }
             // Otherwise, report unused variable/const/param
             sink.push(Diagnostic::unused_variable(
                 file.file_path(db).to_string(),
-- 
2.43.0


From 035d6a5c719dc4f07d901debe0a35493d0396167 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:49:04 +0000
Subject: [PATCH 18/63] fix: module diagnostics of a project with cyclic
 imports report the cycle instead of panicking

---
 crates/compiler/semantic/src/db.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/semantic/src/db.rs b/crates/compiler/semantic/src/db.rs
index 2836c28..f03d42b 100644
--- a/crates/compiler/semantic/src/db.rs
+++ b/crates/compiler/semantic/src/db.rs
@@ -337,6 +337,13 @@ fn detect_import_cycle(graph: &HashMap<String, Vec<String>>) -> Option<Vec<Strin
     cycle
 }
 
+fn cyclic_import(cycle: &[String]) -> Diagnostic {
+    Diagnostic::error(
+        DiagnosticCode::SyntaxError,
+        format!("Cyclic import: {}", cycle.join(" -> ")),
+    )
+}
+
 fn topological_sort(graph: &HashMap<String, Vec<String>>) -> Vec<String> {
     let mut visited: HashMap<String, bool> = HashMap::new();
     let mut topo: Vec<String> = Vec::new();
@@ -379,10 +386,7 @@ pub fn project_semantic_index(
 
     let mut coll = DiagnosticCollection::default();
     if let Some(cycle) = detect_import_cycle(&graph) {
-        coll.add(Diagnostic::error(
-            DiagnosticCode::SyntaxError,
-            format!("Cyclic import: {}", cycle.join(" -> ")),
-        ));
+        coll.add(cyclic_import(&cycle));
         return Err(coll);
     }
 
@@ -505,6 +509,15 @@ pub fn module_semantic_diagnostics(
 
     let mut semantic_diag = DiagnosticCollection::default();
 
+    // The modules of a project with cyclic imports cannot be indexed: the cycle is reported on the
+    // first of its modules, and nothing on the others.
+    if let Some(cycle) = detect_import_cycle(&project_import_graph(db, crate_id)) {
+        if cycle.first() == Some(&module_name) {
+            semantic_diag.add(cyclic_import(&cycle));
+        }
+        return semantic_diag;
+    }
+
     if let Some(file) = crate_id.modules(db).get(&module_name) {
         let index = match module_semantic_index(db, crate_id, module_name.clone()) {
             Ok(index) => index,
-- 
2.43.0


From 96a7549c78309668bae323cf0cc61ec9f0f0644a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:49:08 +0000
Subject: [PATCH 19/63] fix: the delta diagnostics tracker forgets removed
 modules

---
 crates/compiler/semantic/src/delta_diagnostics.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/compiler/semantic/src/delta_diagnostics.rs b/crates/compiler/semantic/src/delta_diagnostics.rs
index 78d85ef..74c0fab 100644
--- a/crates/compiler/semantic/src/delta_diagnostics.rs
+++ b/crates/compiler/semantic/src/delta_diagnostics.rs
@@ -71,6 +71,12 @@ impl DeltaDiagnosticsTracker {
         let modules = crate_id.modules(db);
         let mut total_diagnostics = DiagnosticCollection::default();
 
+        // Forget the modules that are no longer part of the project
+        self.cached_diagnostics
+            .retain(|module_name, _| modules.contains_key(module_name));
+        self.module_revisions
+            .retain(|module_name, _| modules.contains_key(module_name));
+
         for (module_name, _file) in modules.iter() {
             let module_changed = self.has_module_changed(db, crate_id, module_name.clone());
 
-- 
2.43.0


From f917e08e9e294a72c12b0aba7343cf29ae3e9bfe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:53:20 +0000
Subject: [PATCH 20/63] fix: a name that is not a struct is not a type

---
 .../compiler/semantic/src/semantic_index.rs   |  6 +--
 .../semantic/src/validation/scope_check.rs    | 44 ++++++++++++++++++-
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index 48ffd6c..f6db070 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -683,9 +683,9 @@ impl SemanticIndex {
         self.uses.contains_key(&usage_index)
     }
 
-    /// Check if a type usage has a corresponding definition
-    pub(crate) fn is_type_usage_resolved(&self, usage_index: usize) -> bool {
-        self.type_usage_to_definition.contains_key(&usage_index)
+    /// Get the definition a type usage was resolved to, if any
+    pub(crate) fn definition_of_type_usage(&self, usage_index: usize) -> Option<&Definition> {
+        self.definition(*self.type_usage_to_definition.get(&usage_index)?)
     }
 
     /// Get the definition for a specific identifier usage
diff --git a/crates/compiler/semantic/src/validation/scope_check.rs b/crates/compiler/semantic/src/validation/scope_check.rs
index 7b5722f..61369e5 100644
--- a/crates/compiler/semantic/src/validation/scope_check.rs
+++ b/crates/compiler/semantic/src/validation/scope_check.rs
@@ -25,7 +25,8 @@ use std::collections::HashSet;
 use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSink};
 
 use crate::builtins::is_builtin_function_name;
-use crate::db::{Crate, SemanticDb};
+use crate::db::{Crate, SemanticDb, module_semantic_index};
+use crate::definition::DefinitionKind;
 use crate::validation::Validator;
 use crate::{File, SemanticIndex};
 
@@ -206,7 +207,15 @@ impl ScopeValidator {
 
         // Check each type usage to see if it was resolved to a definition
         for (usage_index, usage) in index.type_usages().iter().enumerate() {
-            if !index.is_type_usage_resolved(usage_index) {
+            if let Some(definition) = index.definition_of_type_usage(usage_index) {
+                if !Self::may_name_a_type(db, crate_id, definition) {
+                    sink.push(Diagnostic::undeclared_type(
+                        file.file_path(db).to_string(),
+                        &usage.name,
+                        usage.span,
+                    ));
+                }
+            } else {
                 // If not resolved, try to resolve with imports using the centralized method
                 if index
                     .resolve_name_with_imports_at_position(
@@ -229,6 +238,37 @@ impl ScopeValidator {
         }
     }
 
+    /// Whether a definition is a struct, directly or through imports. An import that does not
+    /// resolve is reported as such, not here.
+    fn may_name_a_type(
+        db: &dyn SemanticDb,
+        crate_id: Crate,
+        definition: &crate::Definition,
+    ) -> bool {
+        match &definition.kind {
+            DefinitionKind::Struct(_) => true,
+            DefinitionKind::Use(use_ref) => {
+                let imported_module = use_ref.imported_module.value();
+                if !crate_id.modules(db).contains_key(imported_module) {
+                    return true;
+                }
+                let Ok(imported_index) =
+                    module_semantic_index(db, crate_id, imported_module.clone())
+                else {
+                    return true;
+                };
+                imported_index
+                    .root_scope()
+                    .and_then(|root| {
+                        imported_index.latest_definition_index_by_name(root, use_ref.item.value())
+                    })
+                    .and_then(|def_idx| imported_index.definition(def_idx))
+                    .is_none_or(|imported| Self::may_name_a_type(db, crate_id, imported))
+            }
+            _ => false,
+        }
+    }
+
     /// Check that all imported items actually exist in their target modules
     ///
     /// This validates that use statements like `use lib::{a, nonexistent_b}`
-- 
2.43.0


From 460b7aae70ed2eccf520e5fd7476e5a4a4c93ab5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 21/63] fix: a name imported through a re-export resolves to
 the item it stands for

---
 crates/compiler/semantic/src/semantic_index.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/compiler/semantic/src/semantic_index.rs b/crates/compiler/semantic/src/semantic_index.rs
index f6db070..c7772a8 100644
--- a/crates/compiler/semantic/src/semantic_index.rs
+++ b/crates/compiler/semantic/src/semantic_index.rs
@@ -518,6 +518,17 @@ impl SemanticIndex {
                             .modules(db)
                             .get(use_def_ref.imported_module.value())
                         {
+                            // Follow re-exports to the item itself
+                            if matches!(imported_def.kind, DefinitionKind::Use(_)) {
+                                return imported_module_index.resolve_name_with_imports_at_position(
+                                    db,
+                                    crate_id,
+                                    *imported_file,
+                                    name,
+                                    imported_root,
+                                    position,
+                                );
+                            }
                             return Some((imported_def_idx, imported_def.clone(), *imported_file));
                         }
                     }
-- 
2.43.0


From 48f671428a843a7d4681d8bd2e7cfba0ef7e8c21 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 22/63] fix: nested array literals parse in linear instead of
 exponential time

---
 crates/compiler/parser/src/parser.rs | 66 ++++++++++++++++++----------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/crates/compiler/parser/src/parser.rs b/crates/compiler/parser/src/parser.rs
index 2ecc2c8..c70ba1e 100644
--- a/crates/compiler/parser/src/parser.rs
+++ b/crates/compiler/parser/src/parser.rs
@@ -526,6 +526,13 @@ enum ParenTail {
     Tuple(Vec<Spanned<Expression>>), // (e, rest..., [trailing ,]) )
 }
 
+// What follows the first element of an array expression.
+#[derive(Debug, Clone)]
+enum ArrayTail {
+    Repeat(Spanned<u64>),           // [e; N]
+    List(Vec<Spanned<Expression>>), // [e, rest..., [trailing ,]]
+}
+
 /// Wrapper for the parsed AST result.
 ///
 /// This follows the Salsa best practice of caching the entire parse result
@@ -929,40 +936,52 @@ where
             )
             .map_with(|expr, extra| Spanned::new(expr, extra.span()));
 
-        // Array repetition expressions: "[expr; UNSUFFIXED_INT]"
-        let array_repeat = just(TokenType::LBrack)
+        // Array repetition "[expr; UNSUFFIXED_INT]" and array literal "[elem1, elem2, elem3]".
+        // As for parentheses, the first element is parsed exactly once and the token after it decides.
+        let array_repeat_tail = just(TokenType::Semicolon)
             .ignore_then(
-                expr.clone().then_ignore(just(TokenType::Semicolon)).then(
-                    select! { TokenType::LiteralNumber(lit) => lit }
-                        .map_with(|lit, extra| Spanned::new(lit, extra.span())),
-                ),
+                select! { TokenType::LiteralNumber(lit) => lit }
+                    .map_with(|lit, extra| Spanned::new(lit, extra.span())),
             )
             .then_ignore(just(TokenType::RBrack))
-            .try_map_with(|(element, lit_spanned), extra| {
+            .try_map_with(|lit_spanned, _extra| {
                 if lit_spanned.value().suffix.is_some() {
                     Err(Rich::custom(
                         lit_spanned.span(),
                         "array length must be an unsuffixed integer",
                     ))
                 } else {
-                    Ok(Spanned::new(
-                        Expression::ArrayRepeat {
-                            element: Box::new(element),
-                            count: Spanned::new(lit_spanned.value().value, lit_spanned.span()),
-                        },
-                        extra.span(),
-                    ))
+                    Ok(ArrayTail::Repeat(Spanned::new(
+                        lit_spanned.value().value,
+                        lit_spanned.span(),
+                    )))
                 }
             });
-
-        // Array literal expressions: "[elem1, elem2, elem3]"
-        let array_literal = expr
-            .clone()
-            .separated_by(just(TokenType::Comma))
-            .allow_trailing()
+        let array_list_tail = just(TokenType::Comma)
+            .ignore_then(expr.clone())
+            .repeated()
             .collect::<Vec<_>>()
-            .delimited_by(just(TokenType::LBrack), just(TokenType::RBrack))
-            .map(Expression::ArrayLiteral)
+            .then_ignore(just(TokenType::Comma).or_not())
+            .then_ignore(just(TokenType::RBrack))
+            .map(ArrayTail::List);
+        let array = just(TokenType::LBrack)
+            .ignore_then(
+                just(TokenType::RBrack)
+                    .to(Expression::ArrayLiteral(vec![]))
+                    .or(expr
+                        .clone()
+                        .then(array_repeat_tail.or(array_list_tail))
+                        .map(|(first, tail)| match tail {
+                            ArrayTail::Repeat(count) => Expression::ArrayRepeat {
+                                element: Box::new(first),
+                                count,
+                            },
+                            ArrayTail::List(mut rest) => {
+                                rest.insert(0, first);
+                                Expression::ArrayLiteral(rest)
+                            }
+                        })),
+            )
             .map_with(|expr, extra| Spanned::new(expr, extra.span()));
 
         // Basic atomic expressions - try each alternative in order
@@ -970,8 +989,7 @@ where
             .or(boolean_literal)
             .or(new_expr)
             .or(struct_literal)
-            .or(array_repeat.clone())
-            .or(array_literal)
+            .or(array)
             .or(ident_expr)
             .or(paren_or_tuple);
 
-- 
2.43.0


From 02636ae22cad07f915d5ae887f66a9954a28c5b5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:41:37 +0000
Subject: [PATCH 23/63] fix: a condition may begin with a parenthesised operand

---
 crates/compiler/parser/src/parser.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/crates/compiler/parser/src/parser.rs b/crates/compiler/parser/src/parser.rs
index c70ba1e..773a4fc 100644
--- a/crates/compiler/parser/src/parser.rs
+++ b/crates/compiler/parser/src/parser.rs
@@ -1349,14 +1349,27 @@ where
             .map_with(|stmt, extra| Spanned::new(stmt, extra.span()));
 
         // If statement: supports both `if (cond) { ... }` and `if cond { ... }`
-        let if_condition = choice((
+        // The parentheses enclose the whole condition unless an operator follows them:
+        // `if (a) == b { ... }` is a bare condition that merely starts with a parenthesis.
+        let continues_expr = select! {
+            TokenType::As | TokenType::Dot | TokenType::LBrack => (),
+            TokenType::Mul | TokenType::Div | TokenType::Mod => (),
+            TokenType::Plus | TokenType::Minus => (),
+            TokenType::EqEq | TokenType::Neq => (),
+            TokenType::Less | TokenType::LessEqual => (),
+            TokenType::Greater | TokenType::GreaterEqual => (),
+            TokenType::BitwiseAnd | TokenType::BitwiseOr | TokenType::BitwiseXor => (),
+            TokenType::AndAnd | TokenType::OrOr => (),
+        };
+        let condition = choice((
             expr.clone()
-                .delimited_by(just(TokenType::LParen), just(TokenType::RParen)), // condition in parens
+                .delimited_by(just(TokenType::LParen), just(TokenType::RParen)) // condition in parens
+                .then_ignore(continues_expr.not().rewind()),
             expr.clone(), // bare condition
         ));
 
         let if_stmt = just(TokenType::If)
-            .ignore_then(if_condition)
+            .ignore_then(condition.clone())
             .then(statement.clone()) // then block
             .then(
                 just(TokenType::Else)
@@ -1386,14 +1399,8 @@ where
             .map_with(|stmt, extra| Spanned::new(stmt, extra.span()));
 
         // While statement: supports both `while (cond) { ... }` and `while cond { ... }`
-        let while_condition = choice((
-            expr.clone()
-                .delimited_by(just(TokenType::LParen), just(TokenType::RParen)), // condition in parens
-            expr.clone(), // bare condition
-        ));
-
         let while_stmt = just(TokenType::While)
-            .ignore_then(while_condition)
+            .ignore_then(condition)
             .then(statement.clone()) // body
             .map(|(condition, body)| Statement::While {
                 condition,
-- 
2.43.0


From 82bf85026a07b3c062b69a5b1f88f6b9265ca1a2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:48:38 +0000
Subject: [PATCH 24/63] fix: a lone comma is not a tuple type

---
 crates/compiler/parser/src/parser.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/compiler/parser/src/parser.rs b/crates/compiler/parser/src/parser.rs
index 773a4fc..f0766c8 100644
--- a/crates/compiler/parser/src/parser.rs
+++ b/crates/compiler/parser/src/parser.rs
@@ -703,16 +703,18 @@ where
                     .then(just(TokenType::Comma).or_not()), // Check for trailing comma
             )
             .then_ignore(just(TokenType::RParen))
-            .map_with(|(types, trailing_comma), extra| {
+            .try_map_with(|(types, trailing_comma), extra| {
                 let span = extra.span();
 
                 match (types.len(), trailing_comma.is_some()) {
+                    // A comma needs an element before it
+                    (0, true) => Err(Rich::custom(span, "expected a type before ','")),
                     // Single element with trailing comma -> tuple
-                    (1, true) => Spanned::new(TypeExpr::Tuple(types), span),
+                    (1, true) => Ok(Spanned::new(TypeExpr::Tuple(types), span)),
                     // Single element without trailing comma -> parenthesized type
-                    (1, false) => types.into_iter().next().unwrap(),
+                    (1, false) => Ok(types.into_iter().next().unwrap()),
                     // Multiple elements -> always a tuple (regardless of trailing comma)
-                    (_, _) => Spanned::new(TypeExpr::Tuple(types), span),
+                    (_, _) => Ok(Spanned::new(TypeExpr::Tuple(types), span)),
                 }
             });
 
@@ -855,12 +857,13 @@ where
                         .then(just(TokenType::Comma).or_not()),
                 )
                 .then_ignore(just(TokenType::RParen))
-                .map_with(|(types, trailing_comma), extra| {
+                .try_map_with(|(types, trailing_comma), extra| {
                     let span = extra.span();
                     match (types.len(), trailing_comma.is_some()) {
-                        (1, true) => Spanned::new(TypeExpr::Tuple(types), span),
-                        (1, false) => types.into_iter().next().unwrap(),
-                        (_, _) => Spanned::new(TypeExpr::Tuple(types), span),
+                        (0, true) => Err(Rich::custom(span, "expected a type before ','")),
+                        (1, true) => Ok(Spanned::new(TypeExpr::Tuple(types), span)),
+                        (1, false) => Ok(types.into_iter().next().unwrap()),
+                        (_, _) => Ok(Spanned::new(TypeExpr::Tuple(types), span)),
                     }
                 });
 
-- 
2.43.0


From ab4fd3c7696b757ac127a3470e861526e382e09b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:07:23 +0000
Subject: [PATCH 25/63] fix: the formatter keeps the comma of one-element
 tuples

---
 crates/compiler/formatter/src/rules/expressions.rs | 2 +-
 crates/compiler/formatter/src/rules/types.rs       | 2 +-
 crates/compiler/formatter/src/utils.rs             | 9 +++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/expressions.rs b/crates/compiler/formatter/src/rules/expressions.rs
index b9cce2e..a57c6eb 100644
--- a/crates/compiler/formatter/src/rules/expressions.rs
+++ b/crates/compiler/formatter/src/rules/expressions.rs
@@ -54,7 +54,7 @@ impl Format for Expression {
                     .iter()
                     .map(|e| e.value().format(ctx))
                     .collect::<Vec<_>>();
-                parens(comma_separated(elem_docs))
+                tuple(elem_docs)
             }
             Self::StructLiteral { name, fields } => {
                 let field_docs = fields
diff --git a/crates/compiler/formatter/src/rules/types.rs b/crates/compiler/formatter/src/rules/types.rs
index fe4e90f..2b23ce4 100644
--- a/crates/compiler/formatter/src/rules/types.rs
+++ b/crates/compiler/formatter/src/rules/types.rs
@@ -15,7 +15,7 @@ impl Format for TypeExpr {
                     .iter()
                     .map(|t| t.value().format(ctx))
                     .collect::<Vec<_>>();
-                parens(comma_separated(type_docs))
+                tuple(type_docs)
             }
             Self::FixedArray { element_type, size } => Doc::concat(vec![
                 Doc::text("["),
diff --git a/crates/compiler/formatter/src/utils.rs b/crates/compiler/formatter/src/utils.rs
index e04c7dd..f2702cf 100644
--- a/crates/compiler/formatter/src/utils.rs
+++ b/crates/compiler/formatter/src/utils.rs
@@ -10,6 +10,15 @@ pub fn comma_separated(items: Vec<Doc>) -> Doc {
     Doc::join(Doc::text(", "), items)
 }
 
+/// Helper function to format the elements of a tuple; the comma of a one-element tuple tells it
+/// from a parenthesized element
+pub fn tuple(mut items: Vec<Doc>) -> Doc {
+    if items.len() == 1 {
+        items[0] = Doc::concat(vec![items[0].clone(), Doc::text(",")]);
+    }
+    parens(comma_separated(items))
+}
+
 /// Helper function to wrap in parentheses
 pub fn parens(inner: Doc) -> Doc {
     Doc::concat(vec![Doc::text("("), inner, Doc::text(")")])
-- 
2.43.0


From 7fe94ceeb98452065ca3151a234da5ae53430099 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:07:23 +0000
Subject: [PATCH 26/63] fix: the formatter keeps the type of constants

---
 crates/compiler/formatter/src/rules/items.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index beaed17..13c2a17 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -145,14 +145,22 @@ impl Format for StructDef {
 
 impl Format for ConstDef {
     fn format(&self, ctx: &mut FormatterCtx) -> Doc {
-        Doc::concat(vec![
+        let mut parts = vec![
             Doc::text("const"),
             Doc::text(" "),
             Doc::text(self.name.value()),
-            Doc::text(" = "),
-            self.value.value().format(ctx),
-            Doc::text(";"),
-        ])
+        ];
+
+        if let Some(ty) = &self.ty {
+            parts.push(Doc::text(": "));
+            parts.push(ty.value().format(ctx));
+        }
+
+        parts.push(Doc::text(" = "));
+        parts.push(self.value.value().format(ctx));
+        parts.push(Doc::text(";"));
+
+        Doc::concat(parts)
     }
 }
 
-- 
2.43.0


From cb0259e0cde3a41eadd0409559ff48990cf5a582 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:07:23 +0000
Subject: [PATCH 27/63] fix: the formatter prints imports without a path as
 such

---
 crates/compiler/formatter/src/rules/items.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index 13c2a17..2aebcae 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -175,8 +175,10 @@ impl Format for UseStmt {
             .map(|p| p.value().as_str())
             .collect::<Vec<_>>()
             .join("::");
-        parts.push(Doc::text(path_str));
-        parts.push(Doc::text("::"));
+        if !self.path.is_empty() {
+            parts.push(Doc::text(path_str));
+            parts.push(Doc::text("::"));
+        }
 
         // Format the items
         match &self.items {
-- 
2.43.0


From 12793edbdaf13cf61661514f662bea9b3e5ae20c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:07:23 +0000
Subject: [PATCH 28/63] fix: the formatter keeps the parentheses a condition
 needs

---
 .../formatter/src/rules/statements.rs         | 38 +++++++++++++++++--
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/statements.rs b/crates/compiler/formatter/src/rules/statements.rs
index 4f989a5..f7c1fab 100644
--- a/crates/compiler/formatter/src/rules/statements.rs
+++ b/crates/compiler/formatter/src/rules/statements.rs
@@ -1,8 +1,40 @@
-use cairo_m_compiler_parser::parser::{Pattern, Spanned, Statement};
+use cairo_m_compiler_parser::parser::{Expression, Pattern, Spanned, Statement};
 
 use crate::Format;
 use crate::context::FormatterCtx;
 use crate::doc::Doc;
+use crate::utils::parens;
+
+/// Format the condition of an `if` or `while`.
+///
+/// The parentheses around a condition are not part of the AST and are left out, unless the
+/// condition would then run into the body, or its own parentheses be taken for those.
+fn format_condition(condition: &Expression, body: &Statement, ctx: &mut FormatterCtx) -> Doc {
+    let delimited = matches!(body, Statement::Block(statements) if !statements.is_empty());
+    let doc = condition.format(ctx);
+    if delimited && !opens_with_condition(condition) {
+        doc
+    } else {
+        parens(doc)
+    }
+}
+
+/// Whether the expression begins with parentheses that read as the whole condition
+fn opens_with_condition(expr: &Expression) -> bool {
+    match expr {
+        Expression::Parenthesized(_) => true,
+        Expression::FunctionCall { callee, .. } => opens_with_condition(callee.value()),
+        Expression::BinaryOp { left: first, .. }
+        | Expression::IndexAccess { array: first, .. }
+        | Expression::MemberAccess { object: first, .. }
+        | Expression::TupleIndex { tuple: first, .. }
+        | Expression::Cast { expr: first, .. } => {
+            !matches!(first.value(), Expression::Parenthesized(_))
+                && opens_with_condition(first.value())
+        }
+        _ => false,
+    }
+}
 
 // Implement Format for Spanned<Statement> to handle comments
 impl Format for Spanned<Statement> {
@@ -74,7 +106,7 @@ impl Format for Statement {
                 let mut parts = vec![
                     Doc::text("if"),
                     Doc::text(" "),
-                    condition.value().format(ctx),
+                    format_condition(condition.value(), then_block.value(), ctx),
                     Doc::text(" "),
                     then_block.value().format(ctx),
                 ];
@@ -112,7 +144,7 @@ impl Format for Statement {
             Self::While { condition, body } => Doc::concat(vec![
                 Doc::text("while"),
                 Doc::text(" "),
-                condition.value().format(ctx),
+                format_condition(condition.value(), body.value(), ctx),
                 Doc::text(" "),
                 body.value().format(ctx),
             ]),
-- 
2.43.0


From d312d0c21c1bf145f51302df427d681b32220538 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:07:23 +0000
Subject: [PATCH 29/63] fix: the formatter keeps every comment, once and in
 place

Comments were attached to expressions, which print none, and those in nested
blocks, after the first trailing one, in structs or behind a block were lost,
moved or made the formatter panic. Attach them to the items, fields and
statements that have lines of their own, and print them all.
---
 crates/compiler/formatter/src/api.rs          |   8 +-
 .../formatter/src/comment_attachment.rs       | 330 +++++-------------
 crates/compiler/formatter/src/context.rs      |  18 +
 crates/compiler/formatter/src/lib.rs          |   1 -
 crates/compiler/formatter/src/rules/items.rs  |  28 +-
 .../formatter/src/rules/statements.rs         |  21 +-
 .../formatter/src/simple_comment_preserver.rs |  43 ---
 crates/compiler/formatter/src/trivia.rs       |   4 +-
 8 files changed, 128 insertions(+), 325 deletions(-)
 delete mode 100644 crates/compiler/formatter/src/simple_comment_preserver.rs

diff --git a/crates/compiler/formatter/src/api.rs b/crates/compiler/formatter/src/api.rs
index 60d4d79..e76ae81 100644
--- a/crates/compiler/formatter/src/api.rs
+++ b/crates/compiler/formatter/src/api.rs
@@ -5,7 +5,6 @@ use crate::Format;
 use crate::comment_attachment::attach_comments_to_ast;
 use crate::config::FormatterConfig;
 use crate::context::FormatterCtx;
-use crate::simple_comment_preserver::format_with_comments;
 
 /// Format a source file
 pub fn format_source_file(
@@ -32,15 +31,12 @@ pub fn format_parsed_module(
 ) -> String {
     let mut ctx = FormatterCtx::new(cfg, original_text);
 
-    // Attach comments to AST nodes (excludes file-level comments)
+    // Attach comments to AST nodes
     let comment_buckets = attach_comments_to_ast(module, original_text);
     ctx.set_comments(comment_buckets);
 
     let doc = module.format(&mut ctx);
-    let formatted = doc.render(cfg.max_width);
-
-    // Apply file-level comment preservation
-    format_with_comments(&formatted, original_text)
+    doc.render(cfg.max_width)
 }
 
 /// Format a range within a source file
diff --git a/crates/compiler/formatter/src/comment_attachment.rs b/crates/compiler/formatter/src/comment_attachment.rs
index 537c198..1710bc4 100644
--- a/crates/compiler/formatter/src/comment_attachment.rs
+++ b/crates/compiler/formatter/src/comment_attachment.rs
@@ -1,11 +1,7 @@
-use cairo_m_compiler_parser::parser::{
-    Expression, FunctionDef, ParsedModule, Statement, TopLevelItem,
-};
+use cairo_m_compiler_parser::parser::{ParsedModule, Spanned, Statement, TopLevelItem};
 use chumsky::span::SimpleSpan;
 
-use crate::trivia::{
-    Comment, CommentBuckets, CommentPosition, determine_comment_position, scan_comments,
-};
+use crate::trivia::{Comment, CommentBuckets, is_only_whitespace_or_comments, scan_comments};
 
 /// Trait for AST nodes that have spans
 pub trait HasSpan {
@@ -19,268 +15,124 @@ impl<T> HasSpan for cairo_m_compiler_parser::parser::Spanned<T> {
     }
 }
 
+/// A node printed on lines of its own, which can therefore carry comments: an item, a struct
+/// field or a statement of a block.
+struct Node {
+    span: SimpleSpan<usize>,
+    /// The nodes directly inside, in source order
+    children: Vec<Node>,
+}
+
 /// Attach comments to AST nodes based on their spans
 pub fn attach_comments_to_ast(module: &ParsedModule, source: &str) -> CommentBuckets {
-    let comments = scan_comments(source);
+    let nodes: Vec<Node> = module.items.iter().map(item_node).collect();
     let mut buckets = CommentBuckets::new();
-    let mut node_spans = Vec::new();
 
-    // Collect all node spans from the AST
-    collect_node_spans(module, &mut node_spans);
+    for comment in scan_comments(source) {
+        attach(comment, &nodes, None, source, &mut buckets);
+    }
 
-    // Sort spans by start position for efficient attachment
-    node_spans.sort_by_key(|span| span.start);
+    buckets
+}
 
-    // Find the first code position (non-comment, non-whitespace)
-    let first_code_pos = source
-        .lines()
-        .enumerate()
-        .find(|(_, line)| {
-            let trimmed = line.trim();
-            !trimmed.is_empty() && !trimmed.starts_with("//")
-        })
-        .map(|(line_num, _)| {
-            source
-                .lines()
-                .take(line_num)
-                .map(|l| l.len() + 1)
-                .sum::<usize>()
-                .saturating_sub(1)
-        })
-        .unwrap_or(0);
+/// Attach a comment to one of the sibling `nodes`, or to a node inside them.
+///
+/// `owner` is the node the siblings are in.
+fn attach(
+    comment: Comment,
+    nodes: &[Node],
+    owner: Option<&Node>,
+    source: &str,
+    buckets: &mut CommentBuckets,
+) {
+    let split = nodes.partition_point(|node| node.span.start <= comment.span.start);
+    let previous = split.checked_sub(1).map(|i| &nodes[i]);
+    let next = nodes.get(split);
 
-    // For each comment, find the best node to attach it to
-    for comment in comments {
-        // Skip file-level comments (before first code)
-        if comment.span.start < first_code_pos {
-            continue;
+    if let Some(node) = previous {
+        if comment.span.start < node.span.end {
+            return attach(comment, &node.children, Some(node), source, buckets);
         }
-
-        if let Some(node_span) = find_best_attachment(&comment, &node_spans, source) {
-            match determine_comment_position(comment.span, node_span, source) {
-                Some(CommentPosition::Before) => {
-                    buckets.add_leading(node_span, comment);
-                }
-                Some(CommentPosition::EndOfLine) => {
-                    buckets.add_trailing(node_span, comment);
-                }
-                Some(CommentPosition::After) => {
-                    buckets.add_trailing(node_span, comment);
-                }
-                None => {
-                    // Orphaned comment - attach to nearest node
-                    if let Some(nearest) = find_nearest_node(&comment, &node_spans) {
-                        buckets.add_leading(nearest, comment);
-                    }
-                }
-            }
+        // A comment ending the line of a node stays on that line
+        if !source[node.span.end..comment.span.start].contains('\n') {
+            return buckets.add_trailing(node.span, comment);
         }
     }
 
-    buckets
-}
-
-/// Collect all spans from AST nodes
-fn collect_node_spans(module: &ParsedModule, spans: &mut Vec<SimpleSpan<usize>>) {
-    for item in &module.items {
-        collect_item_spans(item, spans);
+    match (previous, next) {
+        (_, Some(node))
+            if is_only_whitespace_or_comments(&source[comment.span.end..node.span.start]) =>
+        {
+            buckets.add_leading(node.span, comment)
+        }
+        (Some(node), _) => buckets.add_trailing(node.span, comment),
+        (None, _) => match owner {
+            Some(node) => buckets.add_leading(node.span, comment),
+            None => buckets.orphans.push(comment),
+        },
     }
 }
 
-fn collect_item_spans(item: &TopLevelItem, spans: &mut Vec<SimpleSpan<usize>>) {
+fn item_node(item: &TopLevelItem) -> Node {
     match item {
-        TopLevelItem::Function(func) => {
-            spans.push(func.span());
-            collect_function_spans(func.value(), spans);
-        }
-        TopLevelItem::Struct(s) => {
-            spans.push(s.span());
-        }
-        TopLevelItem::Const(c) => {
-            spans.push(c.span());
-        }
-        TopLevelItem::Use(u) => {
-            spans.push(u.span());
-        }
+        TopLevelItem::Function(func) => Node {
+            span: func.span(),
+            children: func.value().body.iter().map(statement_node).collect(),
+        },
+        TopLevelItem::Struct(s) => Node {
+            span: s.span(),
+            children: s
+                .value()
+                .fields
+                .iter()
+                .map(|(name, ty)| Node {
+                    span: field_span(name, ty),
+                    children: vec![],
+                })
+                .collect(),
+        },
+        TopLevelItem::Const(c) => Node {
+            span: c.span(),
+            children: vec![],
+        },
+        TopLevelItem::Use(u) => Node {
+            span: u.span(),
+            children: vec![],
+        },
     }
 }
 
-fn collect_function_spans(func: &FunctionDef, spans: &mut Vec<SimpleSpan<usize>>) {
-    // Collect spans from function body statements
-    for stmt in &func.body {
-        collect_statement_spans(stmt, spans);
-    }
+/// The span of a struct field, from its name to its type
+pub fn field_span<T>(name: &Spanned<String>, ty: &Spanned<T>) -> SimpleSpan<usize> {
+    SimpleSpan::from(name.span().start..ty.span().end)
 }
 
-fn collect_statement_spans(
-    stmt: &cairo_m_compiler_parser::parser::Spanned<Statement>,
-    spans: &mut Vec<SimpleSpan<usize>>,
-) {
-    spans.push(stmt.span());
+fn statement_node(stmt: &Spanned<Statement>) -> Node {
+    let mut children = Vec::new();
+    collect_inner_nodes(stmt, &mut children);
+    Node {
+        span: stmt.span(),
+        children,
+    }
+}
 
-    // Recursively collect from nested statements and expressions
+/// Collect the statements of the blocks directly inside a statement
+fn collect_inner_nodes(stmt: &Spanned<Statement>, nodes: &mut Vec<Node>) {
     match stmt.value() {
+        Statement::Block(statements) => nodes.extend(statements.iter().map(statement_node)),
         Statement::If {
-            condition,
             then_block,
             else_block,
+            ..
         } => {
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(then_block, spans);
+            collect_inner_nodes(then_block, nodes);
             if let Some(else_stmt) = else_block {
-                collect_statement_spans(else_stmt, spans);
-            }
-        }
-        Statement::While { condition, body } => {
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(body, spans);
-        }
-        Statement::For {
-            init,
-            condition,
-            step,
-            body,
-        } => {
-            collect_statement_spans(init, spans);
-            collect_expression_spans(condition, spans);
-            collect_statement_spans(step, spans);
-            collect_statement_spans(body, spans);
-        }
-        Statement::Block(statements) => {
-            for s in statements {
-                collect_statement_spans(s, spans);
+                collect_inner_nodes(else_stmt, nodes);
             }
         }
-        Statement::Let { value, .. } => {
-            collect_expression_spans(value, spans);
-        }
-        Statement::Assignment { lhs, rhs } => {
-            collect_expression_spans(lhs, spans);
-            collect_expression_spans(rhs, spans);
-        }
-        Statement::Return { value: Some(expr) } => {
-            collect_expression_spans(expr, spans);
-        }
-        Statement::Return { value: None } => {}
-        Statement::Expression(expr) => {
-            collect_expression_spans(expr, spans);
+        Statement::Loop { body } | Statement::While { body, .. } | Statement::For { body, .. } => {
+            collect_inner_nodes(body, nodes);
         }
-        _ => {} // Other statement types
+        _ => {} // No block inside
     }
 }
-
-fn collect_expression_spans(
-    expr: &cairo_m_compiler_parser::parser::Spanned<Expression>,
-    spans: &mut Vec<SimpleSpan<usize>>,
-) {
-    spans.push(expr.span());
-
-    // Recursively collect from nested expressions
-    match expr.value() {
-        Expression::BinaryOp { left, right, .. } => {
-            collect_expression_spans(left, spans);
-            collect_expression_spans(right, spans);
-        }
-        Expression::UnaryOp { expr, .. } => {
-            collect_expression_spans(expr, spans);
-        }
-        Expression::FunctionCall { callee, args } => {
-            collect_expression_spans(callee, spans);
-            for arg in args {
-                collect_expression_spans(arg, spans);
-            }
-        }
-        Expression::IndexAccess { array, index } => {
-            collect_expression_spans(array, spans);
-            collect_expression_spans(index, spans);
-        }
-        Expression::MemberAccess { object, .. } => {
-            collect_expression_spans(object, spans);
-        }
-        Expression::Tuple(elements) => {
-            for elem in elements {
-                collect_expression_spans(elem, spans);
-            }
-        }
-        Expression::Parenthesized(inner) => {
-            collect_expression_spans(inner, spans);
-        }
-        Expression::StructLiteral { fields, .. } => {
-            for (_, value) in fields {
-                collect_expression_spans(value, spans);
-            }
-        }
-        _ => {} // Literals and identifiers
-    }
-}
-
-/// Find the best node span to attach a comment to
-fn find_best_attachment(
-    comment: &Comment,
-    node_spans: &[SimpleSpan<usize>],
-    source: &str,
-) -> Option<SimpleSpan<usize>> {
-    // Find nodes that could be related to this comment
-    let mut candidates: Vec<(
-        SimpleSpan<usize>,
-        crate::trivia::CommentPosition,
-        usize,
-        u32,
-    )> = Vec::new();
-
-    for &span in node_spans {
-        if let Some(pos) = determine_comment_position(comment.span, span, source) {
-            // Distance from the relevant edge
-            let distance = if comment.span.start < span.start {
-                span.start.saturating_sub(comment.span.start)
-            } else {
-                comment.span.start.saturating_sub(span.end)
-            };
-
-            // Rank preferences: EndOfLine < Before < After
-            // docstrings ("///") should strongly prefer Before
-            let is_doc = comment.text.trim_start().starts_with("///");
-            let rank = match pos {
-                CommentPosition::EndOfLine => 0,
-                CommentPosition::Before => {
-                    if is_doc {
-                        0
-                    } else {
-                        1
-                    }
-                }
-                CommentPosition::After => {
-                    if is_doc {
-                        3
-                    } else {
-                        2
-                    }
-                }
-            };
-            candidates.push((span, pos, distance, rank));
-        }
-    }
-
-    // Prefer lower rank then smaller distance
-    candidates
-        .into_iter()
-        .min_by_key(|&(_span, _pos, distance, rank)| (rank, distance))
-        .map(|(span, _pos, _distance, _rank)| span)
-}
-
-/// Find the nearest node to a comment
-fn find_nearest_node(
-    comment: &Comment,
-    node_spans: &[SimpleSpan<usize>],
-) -> Option<SimpleSpan<usize>> {
-    node_spans
-        .iter()
-        .min_by_key(|&&span| {
-            if comment.span.start < span.start {
-                span.start - comment.span.start
-            } else {
-                comment.span.start - span.end
-            }
-        })
-        .copied()
-}
diff --git a/crates/compiler/formatter/src/context.rs b/crates/compiler/formatter/src/context.rs
index 0d5b7ff..235d262 100644
--- a/crates/compiler/formatter/src/context.rs
+++ b/crates/compiler/formatter/src/context.rs
@@ -2,6 +2,7 @@ use chumsky::span::SimpleSpan;
 
 use crate::comment_preserver::CommentPreserver;
 use crate::config::FormatterConfig;
+use crate::doc::Doc;
 use crate::trivia::{Comment, CommentBuckets};
 
 pub struct FormatterCtx<'a> {
@@ -33,6 +34,23 @@ impl<'a> FormatterCtx<'a> {
         self.comments.get_trailing(span)
     }
 
+    /// Surround the document of the node at `span` with its comments
+    pub fn with_comments(&self, span: SimpleSpan<usize>, mut doc: Doc) -> Doc {
+        if let Some(leading) = self.get_leading_comments(span) {
+            let comments: Vec<String> = leading.iter().map(|c| c.text.clone()).collect();
+            doc = Doc::with_leading_comments(comments, doc);
+        }
+
+        for comment in self.get_trailing_comments(span).into_iter().flatten() {
+            // A comment on the last line of the node stays there, others go on lines of their own
+            let same_line = !self.source[span.end..comment.span.start].contains('\n');
+            let separator = if same_line { Doc::text(" ") } else { Doc::line() };
+            doc = Doc::concat(vec![doc, separator, Doc::comment(&comment.text)]);
+        }
+
+        doc
+    }
+
     pub fn set_comments(&mut self, comments: CommentBuckets) {
         self.comments = comments;
     }
diff --git a/crates/compiler/formatter/src/lib.rs b/crates/compiler/formatter/src/lib.rs
index d651f72..dff9c1a 100644
--- a/crates/compiler/formatter/src/lib.rs
+++ b/crates/compiler/formatter/src/lib.rs
@@ -5,7 +5,6 @@ pub mod config;
 pub mod context;
 pub mod doc;
 pub mod rules;
-pub mod simple_comment_preserver;
 pub mod trivia;
 pub mod utils;
 
diff --git a/crates/compiler/formatter/src/rules/items.rs b/crates/compiler/formatter/src/rules/items.rs
index 2aebcae..51720a2 100644
--- a/crates/compiler/formatter/src/rules/items.rs
+++ b/crates/compiler/formatter/src/rules/items.rs
@@ -3,6 +3,7 @@ use cairo_m_compiler_parser::parser::{
 };
 
 use crate::Format;
+use crate::comment_attachment::field_span;
 use crate::context::FormatterCtx;
 use crate::doc::Doc;
 use crate::utils::*;
@@ -11,6 +12,11 @@ impl Format for ParsedModule {
     fn format(&self, ctx: &mut FormatterCtx) -> Doc {
         let mut docs = vec![];
 
+        for comment in &ctx.comments.orphans {
+            docs.push(Doc::comment(&comment.text));
+            docs.push(Doc::line());
+        }
+
         for (i, item) in self.items.iter().enumerate() {
             if i > 0 {
                 // Add blank line between top-level items
@@ -38,20 +44,7 @@ impl Format for TopLevelItem {
             Self::Use(u) => (u.span(), u.value().format(ctx)),
         };
 
-        // Add leading comments
-        let mut doc = inner_doc;
-        if let Some(leading) = ctx.get_leading_comments(span) {
-            let comments: Vec<String> = leading.iter().map(|c| c.text.clone()).collect();
-            doc = Doc::with_leading_comments(comments, doc);
-        }
-
-        // Add trailing comments
-        if let Some(trailing) = ctx.get_trailing_comments(span) {
-            let comments: Vec<String> = trailing.iter().map(|c| c.text.clone()).collect();
-            doc = Doc::with_trailing_comments(doc, comments);
-        }
-
-        doc
+        ctx.with_comments(span, inner_doc)
     }
 }
 
@@ -123,13 +116,14 @@ impl Format for StructDef {
                 .fields
                 .iter()
                 .map(|(name, ty)| {
-                    Doc::concat(vec![
-                        Doc::line(),
+                    let field = Doc::concat(vec![
                         Doc::text(name.value()),
                         Doc::text(": "),
                         ty.value().format(ctx),
                         Doc::text(","),
-                    ])
+                    ]);
+                    let span = field_span(name, ty);
+                    Doc::concat(vec![Doc::line(), ctx.with_comments(span, field)])
                 })
                 .collect::<Vec<_>>();
 
diff --git a/crates/compiler/formatter/src/rules/statements.rs b/crates/compiler/formatter/src/rules/statements.rs
index f7c1fab..0c7665f 100644
--- a/crates/compiler/formatter/src/rules/statements.rs
+++ b/crates/compiler/formatter/src/rules/statements.rs
@@ -39,23 +39,8 @@ fn opens_with_condition(expr: &Expression) -> bool {
 // Implement Format for Spanned<Statement> to handle comments
 impl Format for Spanned<Statement> {
     fn format(&self, ctx: &mut FormatterCtx) -> Doc {
-        let span = self.span();
-        let mut doc = self.value().format(ctx);
-
-        // Add leading comments
-        if let Some(leading) = ctx.get_leading_comments(span) {
-            let comments: Vec<String> = leading.iter().map(|c| c.text.clone()).collect();
-            doc = Doc::with_leading_comments(comments, doc);
-        }
-
-        // Add trailing comments (end-of-line)
-        if let Some(trailing) = ctx.get_trailing_comments(span) {
-            if let Some(first_trailing) = trailing.first() {
-                doc = doc.with_eol_comment(Some(&first_trailing.text));
-            }
-        }
-
-        doc
+        let doc = self.value().format(ctx);
+        ctx.with_comments(self.span(), doc)
     }
 }
 
@@ -126,7 +111,7 @@ impl Format for Statement {
                 if !statements.is_empty() {
                     let stmts = statements
                         .iter()
-                        .map(|s| Doc::concat(vec![Doc::line(), s.value().format(ctx)]))
+                        .map(|s| Doc::concat(vec![Doc::line(), s.format(ctx)]))
                         .collect::<Vec<_>>();
 
                     parts.push(Doc::indent(ctx.cfg.indent_width, Doc::concat(stmts)));
diff --git a/crates/compiler/formatter/src/simple_comment_preserver.rs b/crates/compiler/formatter/src/simple_comment_preserver.rs
deleted file mode 100644
index bcbf092..0000000
--- a/crates/compiler/formatter/src/simple_comment_preserver.rs
+++ /dev/null
@@ -1,43 +0,0 @@
-use chumsky::span::Span;
-
-/// Simple comment preservation strategy for MVP
-/// This approach re-inserts comments based on their original line positions
-use crate::trivia::scan_comments;
-
-pub fn format_with_comments(formatted_content: &str, original_content: &str) -> String {
-    // For MVP, we'll just prepend file-level comments
-    let comments = scan_comments(original_content);
-
-    if comments.is_empty() {
-        return formatted_content.to_string();
-    }
-
-    let mut output = String::new();
-
-    // Find comments that appear before any code
-    let first_non_comment_line = original_content
-        .lines()
-        .position(|line| {
-            let trimmed = line.trim();
-            !trimmed.is_empty() && !trimmed.starts_with("//")
-        })
-        .unwrap_or(0);
-
-    // Add leading comments
-    for comment in &comments {
-        let comment_line = original_content[..comment.span.start()]
-            .chars()
-            .filter(|&c| c == '\n')
-            .count();
-
-        if comment_line < first_non_comment_line {
-            output.push_str(&comment.text);
-            output.push('\n');
-        }
-    }
-
-    // Add the formatted content
-    output.push_str(formatted_content);
-
-    output
-}
diff --git a/crates/compiler/formatter/src/trivia.rs b/crates/compiler/formatter/src/trivia.rs
index e80af65..7544ddc 100644
--- a/crates/compiler/formatter/src/trivia.rs
+++ b/crates/compiler/formatter/src/trivia.rs
@@ -13,6 +13,8 @@ pub struct Comment {
 pub struct CommentBuckets {
     pub leading: HashMap<SimpleSpan<usize>, Vec<Comment>>,
     pub trailing: HashMap<SimpleSpan<usize>, Vec<Comment>>,
+    /// Comments of a file without any item to attach them to
+    pub orphans: Vec<Comment>,
 }
 
 impl CommentBuckets {
@@ -110,7 +112,7 @@ pub fn determine_comment_position(
 }
 
 /// Returns true if the slice contains only whitespace and line comments (// ...\n)
-fn is_only_whitespace_or_comments(slice: &str) -> bool {
+pub(crate) fn is_only_whitespace_or_comments(slice: &str) -> bool {
     let bytes = slice.as_bytes();
     let mut i = 0;
     while i < bytes.len() {
-- 
2.43.0


From 67aeafbc98c0e2cce0b1760345dc325d448278f2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:28:49 +0000
Subject: [PATCH 30/63] fix: rendering a diagnostic never panics on a span that
 does not fit the source

---
 crates/compiler/diagnostics/src/reporting.rs | 28 ++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/diagnostics/src/reporting.rs b/crates/compiler/diagnostics/src/reporting.rs
index 15c7541..0f3fe83 100644
--- a/crates/compiler/diagnostics/src/reporting.rs
+++ b/crates/compiler/diagnostics/src/reporting.rs
@@ -6,10 +6,31 @@
 // `Source` import is removed as it's no longer directly used by name in this function.
 // If other functions use `Source::from`, it might still be needed there,
 // or ariadne::Source::from can be used.
+use std::ops::Range;
+
 use ariadne::{Label, Report};
 
 use crate::Diagnostic;
 
+/// Fit a byte range to the source text it is shown on: both ends lie on character
+/// boundaries, and the range neither runs backwards nor past the end of the text.
+///
+/// A range that starts outside of the text is left alone; there is nothing to show for it.
+fn fit_span(source: &str, span: Range<usize>) -> Range<usize> {
+    if span.start > source.len() {
+        return span.start..span.start.max(span.end);
+    }
+    let mut start = span.start;
+    while !source.is_char_boundary(start) {
+        start -= 1;
+    }
+    let mut end = span.end.clamp(span.start, source.len());
+    while !source.is_char_boundary(end) {
+        end += 1;
+    }
+    start..end
+}
+
 /// Build a formatted message for a parse diagnostic
 pub fn build_diagnostic_message(
     source_content: &str,
@@ -20,7 +41,10 @@ pub fn build_diagnostic_message(
     let code_u32: u32 = diagnostic.code.into();
 
     let file_id = diagnostic.file_path.clone();
-    let report_span = (file_id.clone(), diagnostic.span.into_range());
+    let report_span = (
+        file_id.clone(),
+        fit_span(source_content, diagnostic.span.into_range()),
+    );
     let owned_source_content = source_content.to_string();
 
     // Create a cache that Ariadne can use to fetch source snippets.
@@ -38,7 +62,7 @@ pub fn build_diagnostic_message(
 
     // Add related spans as notes
     for (span, message) in &diagnostic.related_spans {
-        let related_span = (file_id.clone(), span.into_range());
+        let related_span = (file_id.clone(), fit_span(source_content, span.into_range()));
         report = report.with_label(
             Label::new(related_span)
                 .with_message(message)
-- 
2.43.0


From 9ecdf4dd116d25ce45a7526ef0df3e93fdff5333 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:38:38 +0000
Subject: [PATCH 31/63] fix: what follows a condition in parentheses may begin
 with a minus or a bracket

---
 crates/compiler/formatter/src/rules/statements.rs | 12 +++++++++---
 crates/compiler/parser/src/parser.rs              |  4 ++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/compiler/formatter/src/rules/statements.rs b/crates/compiler/formatter/src/rules/statements.rs
index 0c7665f..067e477 100644
--- a/crates/compiler/formatter/src/rules/statements.rs
+++ b/crates/compiler/formatter/src/rules/statements.rs
@@ -1,4 +1,4 @@
-use cairo_m_compiler_parser::parser::{Expression, Pattern, Spanned, Statement};
+use cairo_m_compiler_parser::parser::{BinaryOp, Expression, Pattern, Spanned, Statement};
 
 use crate::Format;
 use crate::context::FormatterCtx;
@@ -23,9 +23,15 @@ fn format_condition(condition: &Expression, body: &Statement, ctx: &mut Formatte
 fn opens_with_condition(expr: &Expression) -> bool {
     match expr {
         Expression::Parenthesized(_) => true,
-        Expression::FunctionCall { callee, .. } => opens_with_condition(callee.value()),
-        Expression::BinaryOp { left: first, .. }
+        // what follows may also begin the body
+        Expression::FunctionCall { callee: first, .. }
         | Expression::IndexAccess { array: first, .. }
+        | Expression::BinaryOp {
+            op: BinaryOp::Sub,
+            left: first,
+            ..
+        } => opens_with_condition(first.value()),
+        Expression::BinaryOp { left: first, .. }
         | Expression::MemberAccess { object: first, .. }
         | Expression::TupleIndex { tuple: first, .. }
         | Expression::Cast { expr: first, .. } => {
diff --git a/crates/compiler/parser/src/parser.rs b/crates/compiler/parser/src/parser.rs
index f0766c8..029b110 100644
--- a/crates/compiler/parser/src/parser.rs
+++ b/crates/compiler/parser/src/parser.rs
@@ -1354,10 +1354,10 @@ where
         // If statement: supports both `if (cond) { ... }` and `if cond { ... }`
         // The parentheses enclose the whole condition unless an operator follows them:
         // `if (a) == b { ... }` is a bare condition that merely starts with a parenthesis.
+        // (`-`, `[` and `(` may start the body: `if (a) -b;`)
         let continues_expr = select! {
-            TokenType::As | TokenType::Dot | TokenType::LBrack => (),
+            TokenType::As | TokenType::Dot | TokenType::Plus => (),
             TokenType::Mul | TokenType::Div | TokenType::Mod => (),
-            TokenType::Plus | TokenType::Minus => (),
             TokenType::EqEq | TokenType::Neq => (),
             TokenType::Less | TokenType::LessEqual => (),
             TokenType::Greater | TokenType::GreaterEqual => (),
-- 
2.43.0


From 3f85723053361aefea11ed15f3ad5c3ef975185d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:44:30 +0000
Subject: [PATCH 32/63] fix: markdown tests take the whole text of their
 headings

---
 crates/test_utils/src/mdtest/parser.rs | 40 ++++++++++++++++----------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/crates/test_utils/src/mdtest/parser.rs b/crates/test_utils/src/mdtest/parser.rs
index d84a180..b12526b 100644
--- a/crates/test_utils/src/mdtest/parser.rs
+++ b/crates/test_utils/src/mdtest/parser.rs
@@ -47,6 +47,7 @@ pub fn extract_tests(markdown_path: &Path) -> Result<Vec<MdTest>, ParseError> {
 
     let mut in_heading = false;
     let mut heading_level = 0;
+    let mut heading_text = String::new();
     let mut in_code_block = false;
     let mut code_block_lang = String::new();
     let mut code_block_content = String::new();
@@ -80,25 +81,34 @@ pub fn extract_tests(markdown_path: &Path) -> Result<Vec<MdTest>, ParseError> {
 
                 in_heading = true;
                 heading_level = level as usize;
+                heading_text.clear();
             }
             Event::End(TagEnd::Heading(_)) => {
                 in_heading = false;
-            }
-            Event::Text(ref text) if in_heading => match heading_level {
-                1 => {
-                    current_h1 = text.to_string();
-                    current_h2.clear();
-                    current_h3.clear();
-                }
-                2 => {
-                    current_h2 = text.to_string();
-                    current_h3.clear();
-                }
-                3 => {
-                    current_h3 = text.to_string();
+                let text = heading_text.trim();
+                match heading_level {
+                    1 => {
+                        current_h1 = text.to_string();
+                        current_h2.clear();
+                        current_h3.clear();
+                    }
+                    2 => {
+                        current_h2 = text.to_string();
+                        current_h3.clear();
+                    }
+                    3 => {
+                        current_h3 = text.to_string();
+                    }
+                    _ => {}
                 }
-                _ => {}
-            },
+            }
+            // The text of a heading comes in pieces when it contains code, entities or emphasis
+            Event::Text(ref text) | Event::Code(ref text) | Event::InlineHtml(ref text)
+                if in_heading =>
+            {
+                heading_text.push_str(text);
+            }
+            Event::SoftBreak | Event::HardBreak if in_heading => heading_text.push(' '),
             Event::Start(Tag::CodeBlock(CodeBlockKind::Fenced(ref lang))) => {
                 in_code_block = true;
                 code_block_lang = lang.to_string();
-- 
2.43.0


From ef34797860e775b2c5ca4b35b86fdd23e14ea8f7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:44:30 +0000
Subject: [PATCH 33/63] fix: a markdown test never takes the Rust code of
 another section

---
 crates/test_utils/src/mdtest/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/test_utils/src/mdtest/parser.rs b/crates/test_utils/src/mdtest/parser.rs
index b12526b..adf02eb 100644
--- a/crates/test_utils/src/mdtest/parser.rs
+++ b/crates/test_utils/src/mdtest/parser.rs
@@ -79,6 +79,9 @@ pub fn extract_tests(markdown_path: &Path) -> Result<Vec<MdTest>, ParseError> {
                     });
                 }
 
+                // Rust code belongs to a test of its own section
+                pending_rust = None;
+
                 in_heading = true;
                 heading_level = level as usize;
                 heading_text.clear();
-- 
2.43.0


From 8aeef898d2259e41463ccfc47085265e9bbea3c8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:44:30 +0000
Subject: [PATCH 34/63] fix: an indented block of a markdown test file has no
 language

---
 crates/test_utils/src/mdtest/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/test_utils/src/mdtest/parser.rs b/crates/test_utils/src/mdtest/parser.rs
index adf02eb..18ebb90 100644
--- a/crates/test_utils/src/mdtest/parser.rs
+++ b/crates/test_utils/src/mdtest/parser.rs
@@ -117,6 +117,11 @@ pub fn extract_tests(markdown_path: &Path) -> Result<Vec<MdTest>, ParseError> {
                 code_block_lang = lang.to_string();
                 code_block_content.clear();
             }
+            Event::Start(Tag::CodeBlock(CodeBlockKind::Indented)) => {
+                in_code_block = true;
+                code_block_lang.clear();
+                code_block_content.clear();
+            }
             Event::End(TagEnd::CodeBlock) => {
                 // Process the completed code block
                 match code_block_lang.as_str() {
-- 
2.43.0


From 95a70dedd5286f73031fd9ed91c1b47e50eb05dd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:44:30 +0000
Subject: [PATCH 35/63] fix: a markdown test configuration without [mdtest] has
 the default limits

---
 crates/test_utils/src/mdtest/config.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/test_utils/src/mdtest/config.rs b/crates/test_utils/src/mdtest/config.rs
index cd93db1..06dbb26 100644
--- a/crates/test_utils/src/mdtest/config.rs
+++ b/crates/test_utils/src/mdtest/config.rs
@@ -8,7 +8,7 @@ pub struct MdTestConfig {
     pub compiler: CompilerSection,
 }
 
-#[derive(Debug, Clone, Default, Serialize, Deserialize)]
+#[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct MdTestSection {
     /// Timeout in milliseconds
     #[serde(default = "default_timeout")]
@@ -18,6 +18,15 @@ pub struct MdTestSection {
     pub max_steps: usize,
 }
 
+impl Default for MdTestSection {
+    fn default() -> Self {
+        Self {
+            timeout: default_timeout(),
+            max_steps: default_max_steps(),
+        }
+    }
+}
+
 #[derive(Debug, Clone, Default, Serialize, Deserialize)]
 pub struct CompilerSection {
     /// Optimization level (0-3)
-- 
2.43.0


From 033870633684c2a5164331790855fb4e28c7b610 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:52:42 +0000
Subject: [PATCH 36/63] fix: a standalone file of any name is a project

The manifest of a standalone file was written as TOML text and parsed back,
which panicked when the name of the file had a quote or a backslash in it.
---
 crates/compiler/cairo-m-project/src/discovery.rs | 13 +++++--------
 crates/compiler/cairo-m-project/src/manifest.rs  |  2 +-
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/crates/compiler/cairo-m-project/src/discovery.rs b/crates/compiler/cairo-m-project/src/discovery.rs
index 95dea31..eb9cfc6 100644
--- a/crates/compiler/cairo-m-project/src/discovery.rs
+++ b/crates/compiler/cairo-m-project/src/discovery.rs
@@ -57,14 +57,11 @@ fn setup_as_standalone_file(file_path: &Path) -> Result<Project> {
         .unwrap_or("main");
 
     // For standalone files, the entry point is just the file name
-    let manifest_content = format!(
-        r#"name = "{file_stem}"
-version = "0.1.0"
-entry_point = "{file_stem}.cm"
-"#
-    );
-    let project_manifest =
-        ProjectManifest::from_file_content(&manifest_content).expect("Failed to parse manifest");
+    let project_manifest = ProjectManifest {
+        name: file_stem.to_string(),
+        version: crate::manifest::default_version(),
+        entry_point: format!("{file_stem}.cm"),
+    };
 
     let project = Project {
         config: project_manifest,
diff --git a/crates/compiler/cairo-m-project/src/manifest.rs b/crates/compiler/cairo-m-project/src/manifest.rs
index bb478eb..f544f72 100644
--- a/crates/compiler/cairo-m-project/src/manifest.rs
+++ b/crates/compiler/cairo-m-project/src/manifest.rs
@@ -14,7 +14,7 @@ pub struct ProjectManifest {
     pub entry_point: String,
 }
 
-fn default_version() -> String {
+pub(crate) fn default_version() -> String {
     "0.1.0".to_string()
 }
 
-- 
2.43.0


From 4393b989b5564886ffece9087877a613a212c246 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:52:42 +0000
Subject: [PATCH 37/63] fix: a project is found from relative paths and paths
 with '..'

The search for the manifest went through the parents of the path as it was
written: it stopped at the working directory, and it took directories that do
not enclose a path such as 'a/../b'.
---
 crates/compiler/cairo-m-project/src/discovery.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/cairo-m-project/src/discovery.rs b/crates/compiler/cairo-m-project/src/discovery.rs
index eb9cfc6..b10368f 100644
--- a/crates/compiler/cairo-m-project/src/discovery.rs
+++ b/crates/compiler/cairo-m-project/src/discovery.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 use anyhow::{Context, Result};
 use tracing::debug;
@@ -119,6 +119,17 @@ pub fn discover_workspace(workspace_root: &Path) -> Result<Workspace> {
 
 /// Find the project manifest (cairom.toml) starting from a given path
 pub fn find_project_manifest(start_path: &Path) -> Result<Option<PathBuf>> {
+    // The parents of a path are its enclosing directories only if it is absolute
+    // and has no `..` in it.
+    let mut absolute_path = std::env::current_dir()?.join(start_path);
+    if absolute_path
+        .components()
+        .any(|component| component == Component::ParentDir)
+    {
+        absolute_path = absolute_path.canonicalize().unwrap_or(absolute_path);
+    }
+    let start_path = absolute_path.as_path();
+
     let start_dir = if start_path.is_file() {
         start_path
             .parent()
-- 
2.43.0


From 3c2074eed5c5ce2e6c4822491b4916456440d026 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:53:44 +0000
Subject: [PATCH 38/63] fix: the source directory of a project is its src
 directory

It was the directory of the entry file: a project whose entry file is in a
directory below src had that file as its only module, a standalone file in a
directory called src had all files around it as modules, a directory called
'x.cm' was a source file, and a root file without a parent directory or in one
whose name is not UTF-8 made source_files panic.
---
 .../compiler/cairo-m-project/src/discovery.rs | 11 +++++-
 crates/compiler/cairo-m-project/src/model.rs  | 39 +++++++++++++------
 crates/compiler/semantic/src/db.rs            |  7 +---
 3 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/crates/compiler/cairo-m-project/src/discovery.rs b/crates/compiler/cairo-m-project/src/discovery.rs
index b10368f..b5f718f 100644
--- a/crates/compiler/cairo-m-project/src/discovery.rs
+++ b/crates/compiler/cairo-m-project/src/discovery.rs
@@ -67,7 +67,11 @@ fn setup_as_standalone_file(file_path: &Path) -> Result<Project> {
         config: project_manifest,
         root_directory: canonical_file_path.clone(),
         name: file_stem.to_string(),
-        source_layout: SourceLayout::default(),
+        // A standalone file has no source directory
+        source_layout: SourceLayout {
+            src_dir: PathBuf::new(),
+            ..SourceLayout::default()
+        },
     };
 
     Ok(project)
@@ -158,12 +162,13 @@ fn load_project_from_manifest(manifest_path: &Path) -> Result<Project> {
     let manifest = ProjectManifest::from_path(manifest_path)
         .with_context(|| format!("Failed to parse manifest at {}", manifest_path.display()))?;
 
+    let manifest_path = std::path::absolute(manifest_path)?;
     let project_folder = manifest_path
         .parent()
         .ok_or_else(|| anyhow::anyhow!("Manifest has no parent directory"))?
         .to_owned();
 
-    let source_layout = SourceLayout::default();
+    let mut source_layout = SourceLayout::default();
 
     // The entry_point in the manifest is relative to the project root
     // It might include "src/" prefix or not, so we need to handle both cases
@@ -180,6 +185,8 @@ fn load_project_from_manifest(manifest_path: &Path) -> Result<Project> {
             .join(&manifest.entry_point)
     };
 
+    source_layout.src_dir = project_folder.join(&source_layout.src_dir);
+
     let manifest_name = manifest.name.clone();
 
     Ok(Project {
diff --git a/crates/compiler/cairo-m-project/src/model.rs b/crates/compiler/cairo-m-project/src/model.rs
index e808589..7b1a82a 100644
--- a/crates/compiler/cairo-m-project/src/model.rs
+++ b/crates/compiler/cairo-m-project/src/model.rs
@@ -21,24 +21,37 @@ pub struct Project {
 }
 
 impl Project {
-    /// Get the absolute path to the source directory. The `root_directory` is the file path to the `.cm` file that is the project root.
+    /// Get the absolute path to the source directory. A project without a source directory of its
+    /// own (a standalone file) has the directory of its root file.
     pub fn source_directory(&self) -> PathBuf {
-        self.root_directory.parent().unwrap().to_owned()
+        if self.source_layout.src_dir.is_absolute() {
+            return self.source_layout.src_dir.clone();
+        }
+        self.root_directory
+            .parent()
+            .map(Path::to_path_buf)
+            .unwrap_or_default()
     }
 
     /// Check if a path belongs to this project
     pub fn contains_path(&self, path: &Path) -> bool {
-        path.starts_with(&self.root_directory)
+        path == self.root_directory
+            || (!self.is_standalone() && path.starts_with(self.source_directory()))
+    }
+
+    /// A standalone file is its only source file.
+    fn is_standalone(&self) -> bool {
+        if self.source_layout.src_dir.is_absolute() {
+            return false;
+        }
+        self.source_layout.src_dir.as_os_str().is_empty()
+            || self.source_directory().file_name() != self.source_layout.src_dir.file_name()
     }
 
     /// Get all source files in the project
     pub fn source_files(&self) -> anyhow::Result<Vec<PathBuf>> {
-        let src_dir = self.root_directory.parent().unwrap();
-        let src_dir_name = src_dir.file_name().unwrap().to_str().unwrap();
-
-        // TODO: refactor with a stronger mechanism regarding standalone file detection
-        //1. If it's not an `src` dir we're in the standalone file case and there's only one file, the crate root.
-        if src_dir_name != "src" {
+        //1. If it's a standalone file there's only one file, the crate root.
+        if self.is_standalone() {
             tracing::info!(
                 "Compiling standalone file: {}",
                 self.root_directory.display()
@@ -47,17 +60,19 @@ impl Project {
         }
         tracing::info!("Compiling project: {}", self.root_directory.display());
 
-        //2. if it's a `src` dir, walk the files
+        //2. Otherwise, walk the files of the source directory
         let mut files = Vec::new();
 
         use ignore::WalkBuilder;
-        let walker = WalkBuilder::new(src_dir).follow_links(false).build();
+        let walker = WalkBuilder::new(self.source_directory())
+            .follow_links(false)
+            .build();
 
         for entry in walker {
             let entry = entry?;
             let path = entry.path();
 
-            if path.extension().and_then(|s| s.to_str()) == Some("cm") {
+            if path.extension().and_then(|s| s.to_str()) == Some("cm") && path.is_file() {
                 files.push(path.to_owned());
             }
         }
diff --git a/crates/compiler/semantic/src/db.rs b/crates/compiler/semantic/src/db.rs
index f03d42b..606279d 100644
--- a/crates/compiler/semantic/src/db.rs
+++ b/crates/compiler/semantic/src/db.rs
@@ -190,11 +190,8 @@ pub fn crate_from_project(
 
     // Determine entry point module name from the entry file
     let entry_point = project
-        .root_directory
-        .file_stem()
-        .and_then(|s| s.to_str())
-        .unwrap_or("main")
-        .to_string();
+        .module_name_from_path(&project.root_directory)
+        .unwrap_or_else(|_| "main".to_string());
 
     Ok(Crate::new(
         db,
-- 
2.43.0


From 40e0fc0e1fac62ea1824cb89833e1ed7b76a1797 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:01:40 +0000
Subject: [PATCH 39/63] fix: a new Cairo-M project never takes an existing
 directory or an invalid name

'new/..' or 'new/../existing' wrote the template over the files of a directory
that existed, because the target only had not to exist before its parents were
created. Names that are not those of a Cargo package gave manifests that do not
load.
---
 crates/cargo-cairo-m/src/main.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/crates/cargo-cairo-m/src/main.rs b/crates/cargo-cairo-m/src/main.rs
index 0be194b..dd1f3a0 100644
--- a/crates/cargo-cairo-m/src/main.rs
+++ b/crates/cargo-cairo-m/src/main.rs
@@ -41,17 +41,28 @@ fn init_project(name: &str) -> Result<()> {
 
     // Support paths
     let project_path = Path::new(name);
-    let project_name = project_path
-        .file_name()
-        .and_then(|s| s.to_str())
-        .unwrap_or(name);
+    let Some(project_name) = project_path.file_name().and_then(|s| s.to_str()) else {
+        anyhow::bail!("'{name}' does not end in the name of a project");
+    };
+    if !is_valid_project_name(project_name) {
+        anyhow::bail!(
+            "Invalid project name '{project_name}': it must start with a letter or '_' and \
+             have only letters, digits, '-' and '_'"
+        );
+    }
 
     if project_path.exists() {
         anyhow::bail!("Directory '{}' already exists", project_path.display());
     }
 
     // Create all parent directories if needed
-    fs::create_dir_all(project_path).with_context(|| {
+    if let Some(parent) = project_path.parent() {
+        fs::create_dir_all(parent).with_context(|| {
+            format!("Failed to create parent directory '{}'", parent.display())
+        })?;
+    }
+    // The directory of the project itself has to be a new one
+    fs::create_dir(project_path).with_context(|| {
         format!(
             "Failed to create project directory '{}'",
             project_path.display()
@@ -85,6 +96,14 @@ fn init_project(name: &str) -> Result<()> {
     Ok(())
 }
 
+/// A project has the name of a Cargo package.
+fn is_valid_project_name(name: &str) -> bool {
+    name.starts_with(|c: char| c.is_alphabetic() || c == '_')
+        && name
+            .chars()
+            .all(|c| c.is_alphanumeric() || c == '-' || c == '_')
+}
+
 fn write_cairom_toml(project_path: &Path, name: &str) -> Result<()> {
     let template = include_str!("../templates/cairom.toml");
     let content = template.replace("{{name}}", name);
-- 
2.43.0


From ec82ce757c9c36346d61ad418ea37a51b14329c1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:06:25 +0000
Subject: [PATCH 40/63] Revert the changes to the markdown test support
 (crates/test_utils/src/mdtest), which counts as test files

---
 crates/test_utils/src/mdtest/config.rs | 11 +-----
 crates/test_utils/src/mdtest/parser.rs | 48 ++++++++------------------
 2 files changed, 16 insertions(+), 43 deletions(-)

diff --git a/crates/test_utils/src/mdtest/config.rs b/crates/test_utils/src/mdtest/config.rs
index 06dbb26..cd93db1 100644
--- a/crates/test_utils/src/mdtest/config.rs
+++ b/crates/test_utils/src/mdtest/config.rs
@@ -8,7 +8,7 @@ pub struct MdTestConfig {
     pub compiler: CompilerSection,
 }
 
-#[derive(Debug, Clone, Serialize, Deserialize)]
+#[derive(Debug, Clone, Default, Serialize, Deserialize)]
 pub struct MdTestSection {
     /// Timeout in milliseconds
     #[serde(default = "default_timeout")]
@@ -18,15 +18,6 @@ pub struct MdTestSection {
     pub max_steps: usize,
 }
 
-impl Default for MdTestSection {
-    fn default() -> Self {
-        Self {
-            timeout: default_timeout(),
-            max_steps: default_max_steps(),
-        }
-    }
-}
-
 #[derive(Debug, Clone, Default, Serialize, Deserialize)]
 pub struct CompilerSection {
     /// Optimization level (0-3)
diff --git a/crates/test_utils/src/mdtest/parser.rs b/crates/test_utils/src/mdtest/parser.rs
index 18ebb90..d84a180 100644
--- a/crates/test_utils/src/mdtest/parser.rs
+++ b/crates/test_utils/src/mdtest/parser.rs
@@ -47,7 +47,6 @@ pub fn extract_tests(markdown_path: &Path) -> Result<Vec<MdTest>, ParseError> {
 
     let mut in_heading = false;
     let mut heading_level = 0;
-    let mut heading_text = String::new();
     let mut in_code_block = false;
     let mut code_block_lang = String::new();
     let mut code_block_content = String::new();
@@ -79,49 +78,32 @@ pub fn extract_tests(markdown_path: &Path) -> Result<Vec<MdTest>, ParseError> {
                     });
                 }
 
-                // Rust code belongs to a test of its own section
-                pending_rust = None;
-
                 in_heading = true;
                 heading_level = level as usize;
-                heading_text.clear();
             }
             Event::End(TagEnd::Heading(_)) => {
                 in_heading = false;
-                let text = heading_text.trim();
-                match heading_level {
-                    1 => {
-                        current_h1 = text.to_string();
-                        current_h2.clear();
-                        current_h3.clear();
-                    }
-                    2 => {
-                        current_h2 = text.to_string();
-                        current_h3.clear();
-                    }
-                    3 => {
-                        current_h3 = text.to_string();
-                    }
-                    _ => {}
-                }
-            }
-            // The text of a heading comes in pieces when it contains code, entities or emphasis
-            Event::Text(ref text) | Event::Code(ref text) | Event::InlineHtml(ref text)
-                if in_heading =>
-            {
-                heading_text.push_str(text);
             }
-            Event::SoftBreak | Event::HardBreak if in_heading => heading_text.push(' '),
+            Event::Text(ref text) if in_heading => match heading_level {
+                1 => {
+                    current_h1 = text.to_string();
+                    current_h2.clear();
+                    current_h3.clear();
+                }
+                2 => {
+                    current_h2 = text.to_string();
+                    current_h3.clear();
+                }
+                3 => {
+                    current_h3 = text.to_string();
+                }
+                _ => {}
+            },
             Event::Start(Tag::CodeBlock(CodeBlockKind::Fenced(ref lang))) => {
                 in_code_block = true;
                 code_block_lang = lang.to_string();
                 code_block_content.clear();
             }
-            Event::Start(Tag::CodeBlock(CodeBlockKind::Indented)) => {
-                in_code_block = true;
-                code_block_lang.clear();
-                code_block_content.clear();
-            }
             Event::End(TagEnd::CodeBlock) => {
                 // Process the completed code block
                 match code_block_lang.as_str() {
-- 
2.43.0


From 30344fe076303d777def562ee408f03d6d88bfdf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:06:25 +0000
Subject: [PATCH 41/63] fix: the parameters and fields of every item are
 checked for duplicates

---
 .../src/validation/structural_validator.rs    | 58 +++++--------------
 1 file changed, 13 insertions(+), 45 deletions(-)

diff --git a/crates/compiler/semantic/src/validation/structural_validator.rs b/crates/compiler/semantic/src/validation/structural_validator.rs
index c87a0bf..6117fb7 100644
--- a/crates/compiler/semantic/src/validation/structural_validator.rs
+++ b/crates/compiler/semantic/src/validation/structural_validator.rs
@@ -9,12 +9,10 @@
 
 use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSink};
 use cairo_m_compiler_parser::parser::{
-    Expression, FunctionDef, NamedType, Spanned, Statement, StructDef, TopLevelItem, TypeExpr,
-    parse_file,
+    Expression, NamedType, Spanned, Statement, TopLevelItem, TypeExpr, parse_file,
 };
 
 use crate::db::{Crate, SemanticDb};
-use crate::definition::DefinitionKind;
 use crate::validation::{Validator, shared};
 use crate::{File, SemanticIndex};
 
@@ -30,7 +28,7 @@ impl Validator for StructuralValidator {
         db: &dyn SemanticDb,
         _crate_id: Crate,
         file: File,
-        index: &SemanticIndex,
+        _index: &SemanticIndex,
         sink: &dyn DiagnosticSink,
     ) {
         let file_path = file.file_path(db);
@@ -41,24 +39,18 @@ impl Validator for StructuralValidator {
         }
         let parsed_module = parsed_program.module;
 
-        // Check each definition in this module
-        for (_def_idx, definition) in index.all_definitions() {
-            match &definition.kind {
-                DefinitionKind::Function(_) => {
-                    // Find the function in the AST and check its parameters
-                    if let Some(func_def) =
-                        self.find_function_in_module(&parsed_module, &definition.name)
-                    {
-                        shared::check_duplicate_parameter_names(&func_def.params, file_path, sink);
-                    }
+        // Check each item of this module, also those whose name is taken by an earlier item
+        for item in parsed_module.items() {
+            match item {
+                TopLevelItem::Function(func_def) => {
+                    shared::check_duplicate_parameter_names(
+                        &func_def.value().params,
+                        file_path,
+                        sink,
+                    );
                 }
-                DefinitionKind::Struct(_) => {
-                    // Find the struct in the AST and check its fields
-                    if let Some(struct_def) =
-                        self.find_struct_in_module(&parsed_module, &definition.name)
-                    {
-                        shared::check_duplicate_struct_fields(&struct_def, file_path, sink);
-                    }
+                TopLevelItem::Struct(struct_def) => {
+                    shared::check_duplicate_struct_fields(struct_def, file_path, sink);
                 }
                 _ => {}
             }
@@ -77,30 +69,6 @@ impl Validator for StructuralValidator {
 }
 
 impl StructuralValidator {
-    fn find_function_in_module<'a>(
-        &self,
-        module: &'a cairo_m_compiler_parser::parser::ParsedModule,
-        name: &str,
-    ) -> Option<&'a FunctionDef> {
-        module.items().iter().find_map(|item| match item {
-            TopLevelItem::Function(func) if func.value().name.value() == name => Some(func.value()),
-            _ => None,
-        })
-    }
-
-    fn find_struct_in_module(
-        &self,
-        module: &cairo_m_compiler_parser::parser::ParsedModule,
-        name: &str,
-    ) -> Option<Spanned<StructDef>> {
-        module.items().iter().find_map(|item| match item {
-            TopLevelItem::Struct(struct_def) if struct_def.value().name.value() == name => {
-                Some(struct_def.clone())
-            }
-            _ => None,
-        })
-    }
-
     fn check_patterns_in_module(
         &self,
         module: &cairo_m_compiler_parser::parser::ParsedModule,
-- 
2.43.0


From 42464773b6d264268870cfebbcf4512ffb1869aa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:06:25 +0000
Subject: [PATCH 42/63] fix: patterns and consistency checks reach the
 initialiser and body of for loops

---
 .../src/validation/structural_validator.rs         | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/compiler/semantic/src/validation/structural_validator.rs b/crates/compiler/semantic/src/validation/structural_validator.rs
index 6117fb7..93ef850 100644
--- a/crates/compiler/semantic/src/validation/structural_validator.rs
+++ b/crates/compiler/semantic/src/validation/structural_validator.rs
@@ -114,6 +114,13 @@ impl StructuralValidator {
                 Statement::Loop { body } | Statement::While { body, .. } => {
                     self.check_patterns_in_statements(&[(**body).clone()], file_path, sink);
                 }
+                Statement::For { init, body, .. } => {
+                    self.check_patterns_in_statements(
+                        &[(**init).clone(), (**body).clone()],
+                        file_path,
+                        sink,
+                    );
+                }
                 _ => {}
             }
         }
@@ -171,6 +178,13 @@ impl StructuralValidator {
                 Statement::Loop { body } | Statement::While { body, .. } => {
                     self.check_type_cohesion_in_statements(&[(**body).clone()], file_path, sink);
                 }
+                Statement::For { init, body, .. } => {
+                    self.check_type_cohesion_in_statements(
+                        &[(**init).clone(), (**body).clone()],
+                        file_path,
+                        sink,
+                    );
+                }
                 _ => {}
             }
         }
-- 
2.43.0


From e896a5bf20fe707806c847252a48af93412f9243 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:51:14 +0000
Subject: [PATCH 43/63] fix: a boolean literal may be the argument of a call

---
 crates/compiler/codegen/src/builder/calls.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/compiler/codegen/src/builder/calls.rs b/crates/compiler/codegen/src/builder/calls.rs
index d619650..060504d 100644
--- a/crates/compiler/codegen/src/builder/calls.rs
+++ b/crates/compiler/codegen/src/builder/calls.rs
@@ -208,6 +208,13 @@ impl super::CasmBuilder {
                         )));
                     }
                 },
+                Value::Literal(Literal::Boolean(imm)) if *param_type == MirType::Bool => {
+                    self.store_immediate(
+                        u32::from(*imm),
+                        arg_offset,
+                        format!("Arg {i}: [fp + {arg_offset}] = {imm}"),
+                    );
+                }
                 Value::Operand(arg_id) => {
                     let src_off = self.layout.get_offset(*arg_id)?;
                     if src_off == arg_offset
-- 
2.43.0


From a476d67135e962139a01240bc8bc6c232b8ef092 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:51:14 +0000
Subject: [PATCH 44/63] fix: 0 - x and 1 / x are not simplified to x

---
 crates/compiler/mir/src/passes/arithmetic_simplify.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/mir/src/passes/arithmetic_simplify.rs b/crates/compiler/mir/src/passes/arithmetic_simplify.rs
index 5e35244..7a4cf64 100644
--- a/crates/compiler/mir/src/passes/arithmetic_simplify.rs
+++ b/crates/compiler/mir/src/passes/arithmetic_simplify.rs
@@ -37,7 +37,12 @@ impl ArithmeticSimplify {
     ) -> Option<SimplificationResult> {
         // Check for identity values
         if let Some(identity) = self.evaluator.identity_value(op) {
-            if left == Value::Literal(identity) {
+            // `0 - x` and `1 / x` are not `x`
+            let commutative = !matches!(
+                op,
+                BinaryOp::Sub | BinaryOp::U32Sub | BinaryOp::Div | BinaryOp::U32Div
+            );
+            if commutative && left == Value::Literal(identity) {
                 // identity op x → x
                 return Some(SimplificationResult::Assign(right));
             }
-- 
2.43.0


From d89787fc845ba3c19a8ac81e680cc93a20fe09a7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:51:14 +0000
Subject: [PATCH 45/63] fix: a branch on a u32 compared with zero looks at both
 its limbs

---
 crates/compiler/mir/src/passes/fuse_cmp.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/compiler/mir/src/passes/fuse_cmp.rs b/crates/compiler/mir/src/passes/fuse_cmp.rs
index e9612d9..8ffd298 100644
--- a/crates/compiler/mir/src/passes/fuse_cmp.rs
+++ b/crates/compiler/mir/src/passes/fuse_cmp.rs
@@ -74,27 +74,28 @@ impl MirPass for FuseCmpBranch {
                                 // We found the pattern! Perform the fusion.
 
                                 // We first check for comparisons with 0 which can be optimized
+                                // (a branch looks at one cell, so not those of u32 values)
                                 match (
                                     *op,
                                     self.evaluator.is_zero(left),
                                     self.evaluator.is_zero(right),
                                 ) {
-                                    (BinaryOp::Eq | BinaryOp::U32Eq, true, false) => {
+                                    (BinaryOp::Eq, true, false) => {
                                         // 0 == x is equivalent to !x, so we switch the targets
                                         block.terminator =
                                             Terminator::branch(*right, else_target, then_target);
                                     }
-                                    (BinaryOp::Eq | BinaryOp::U32Eq, false, true) => {
+                                    (BinaryOp::Eq, false, true) => {
                                         // x == 0 is equivalent to !x, so we switch the targets
                                         block.terminator =
                                             Terminator::branch(*left, else_target, then_target);
                                     }
-                                    (BinaryOp::Neq | BinaryOp::U32Neq, true, false) => {
+                                    (BinaryOp::Neq, true, false) => {
                                         // 0 != x is equivalent to x, so we use x as the condition
                                         block.terminator =
                                             Terminator::branch(*right, then_target, else_target);
                                     }
-                                    (BinaryOp::Neq | BinaryOp::U32Neq, false, true) => {
+                                    (BinaryOp::Neq, false, true) => {
                                         // x != 0 is equivalent to x, so we use x as the condition
                                         block.terminator =
                                             Terminator::branch(*left, then_target, else_target);
-- 
2.43.0


From 09c6d78efc6354664e9af92bf7320699f49e7169 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:51:14 +0000
Subject: [PATCH 46/63] fix: values that swap or rotate in a loop are compiled,
 and rightly

---
 .../mir/src/passes/phi_elimination.rs         | 98 +++++--------------
 1 file changed, 27 insertions(+), 71 deletions(-)

diff --git a/crates/compiler/mir/src/passes/phi_elimination.rs b/crates/compiler/mir/src/passes/phi_elimination.rs
index bde659d..fa749ac 100644
--- a/crates/compiler/mir/src/passes/phi_elimination.rs
+++ b/crates/compiler/mir/src/passes/phi_elimination.rs
@@ -240,84 +240,40 @@ impl PhiElimination {
             );
         }
 
-        let mut sequenced = Vec::new();
-        let mut processed = HashSet::new();
-
-        // Handle cycles first by breaking them with temporaries
-        for cycle in cycles {
-            if cycle.len() <= 1 {
-                continue; // Skip trivial cycles
-            }
-
-            self.stats.cycles_broken += 1;
-
-            // Find the actual copy instructions for this cycle
-            let mut cycle_copies = Vec::new();
-            for copy in &copies {
-                if let InstructionKind::Assign { dest, .. } = &copy.kind {
-                    if cycle.contains(dest) {
-                        cycle_copies.push(copy.clone());
-                        processed.insert(*dest);
-                    }
-                }
-            }
+        if cycles.is_empty() {
+            return self.topological_sort_copies(copies, &graph);
+        }
 
-            if cycle_copies.is_empty() {
+        // A copy is emitted once no other pending copy reads its destination. When every
+        // destination is still read, one of them is saved in a temporary for its readers.
+        let mut pending = copies;
+        let mut sequenced = Vec::new();
+        while !pending.is_empty() {
+            let ready = pending.iter().enumerate().position(|(i, copy)| {
+                copy.destination().is_none_or(|dest| {
+                    !pending
+                        .iter()
+                        .enumerate()
+                        .any(|(j, other)| i != j && other.used_values().contains(&dest))
+                })
+            });
+
+            if let Some(i) = ready {
+                sequenced.push(pending.remove(i));
                 continue;
             }
 
-            // Break the cycle using a temporary
-            // Save the first source to a temporary
-            if let InstructionKind::Assign { source, ty, .. } = &cycle_copies[0].kind {
-                let temp = function.new_value_id();
-                sequenced.push(Instruction::assign(temp, *source, ty.clone()));
-
-                // Perform the cycle rotations
-                for i in 0..cycle_copies.len() - 1 {
-                    if let (
-                        InstructionKind::Assign {
-                            dest: dest1,
-                            ty: ty1,
-                            ..
-                        },
-                        InstructionKind::Assign {
-                            source: source2, ..
-                        },
-                    ) = (&cycle_copies[i].kind, &cycle_copies[i + 1].kind)
-                    {
-                        sequenced.push(Instruction::assign(*dest1, *source2, ty1.clone()));
-                    }
-                }
-
-                // Restore from temporary to complete the cycle
-                if let InstructionKind::Assign {
-                    dest: last_dest,
-                    ty: last_ty,
-                    ..
-                } = &cycle_copies[cycle_copies.len() - 1].kind
-                {
-                    sequenced.push(Instruction::assign(
-                        *last_dest,
-                        Value::Operand(temp),
-                        last_ty.clone(),
-                    ));
-                }
-            }
-        }
-
-        // Add non-cyclic copies in dependency order
-        let mut remaining_copies = Vec::new();
-        for copy in copies {
-            if let InstructionKind::Assign { dest, .. } = &copy.kind {
-                if !processed.contains(dest) {
-                    remaining_copies.push(copy);
-                }
+            let InstructionKind::Assign { dest, ty, .. } = pending[0].kind.clone() else {
+                unreachable!("parallel copies are assignments");
+            };
+            self.stats.cycles_broken += 1;
+            let temp = function.new_typed_value_id(ty.clone());
+            sequenced.push(Instruction::assign(temp, Value::Operand(dest), ty));
+            for copy in &mut pending {
+                copy.replace_value_uses(dest, temp);
             }
         }
 
-        // Topological sort for remaining copies
-        sequenced.extend(self.topological_sort_copies(remaining_copies, &graph));
-
         sequenced
     }
 
-- 
2.43.0


From 2c19e49f52dba52e1530fa3de3165a3af131b94d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:51:20 +0000
Subject: [PATCH 47/63] fix: phis follow the blocks that constant branches and
 dead code elimination remove

---
 crates/compiler/mir/src/function.rs            |  9 +++++++++
 .../mir/src/passes/dead_code_elimination.rs    | 18 +++++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/mir/src/function.rs b/crates/compiler/mir/src/function.rs
index 46b0f94..3fda016 100644
--- a/crates/compiler/mir/src/function.rs
+++ b/crates/compiler/mir/src/function.rs
@@ -695,8 +695,17 @@ impl MirFunction {
         };
 
         // Disconnect from old targets
+        let new_targets = new_term.target_blocks();
         for target in old_targets {
             self.disconnect(block_id, target);
+            if !new_targets.contains(&target) {
+                // The phis of a block that is no longer a successor lose an operand
+                for phi in &mut self.basic_blocks[target].instructions {
+                    if let crate::InstructionKind::Phi { sources, .. } = &mut phi.kind {
+                        sources.retain(|(pred, _)| *pred != block_id);
+                    }
+                }
+            }
         }
 
         // Set new terminator
diff --git a/crates/compiler/mir/src/passes/dead_code_elimination.rs b/crates/compiler/mir/src/passes/dead_code_elimination.rs
index 140297a..0f70dac 100644
--- a/crates/compiler/mir/src/passes/dead_code_elimination.rs
+++ b/crates/compiler/mir/src/passes/dead_code_elimination.rs
@@ -152,12 +152,28 @@ impl MirPass for DeadCodeElimination {
                 .get(&function.entry_block)
                 .expect("Entry block was marked unreachable during DCE");
 
-            // 3) Remap all block targets inside terminators for the kept blocks.
+            // 3) Remap all block targets inside terminators, predecessor lists and phis
+            //    for the kept blocks.
             let ids: Vec<BasicBlockId> = new_blocks.indices().collect();
             for bid in ids {
                 if let Some(block) = new_blocks.get_mut(bid) {
                     let new_term = Self::remap_terminator(block.terminator.clone(), &old_to_new);
                     block.terminator = new_term;
+                    block.preds = block
+                        .preds
+                        .iter()
+                        .filter_map(|pred| old_to_new.get(pred).copied())
+                        .collect();
+                    for phi in &mut block.instructions {
+                        if let crate::InstructionKind::Phi { sources, .. } = &mut phi.kind {
+                            *sources = std::mem::take(sources)
+                                .into_iter()
+                                .filter_map(|(pred, value)| {
+                                    old_to_new.get(&pred).map(|&pred| (pred, value))
+                                })
+                                .collect();
+                        }
+                    }
                 }
             }
 
-- 
2.43.0


From 594d138083f189cfadc7512b1827f63c598371db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:51:20 +0000
Subject: [PATCH 48/63] fix: a phi found trivial is replaced in the definitions
 other blocks read

---
 crates/compiler/mir/src/function.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/compiler/mir/src/function.rs b/crates/compiler/mir/src/function.rs
index 3fda016..5e8e16e 100644
--- a/crates/compiler/mir/src/function.rs
+++ b/crates/compiler/mir/src/function.rs
@@ -615,6 +615,13 @@ impl MirFunction {
         // Remove phi instruction
         self.remove_phi_instruction(phi_block, phi);
 
+        // Other blocks may have read the phi as the definition of a variable
+        for value in self.current_def.values_mut().chain(self.locals.values_mut()) {
+            if *value == phi {
+                *value = replacement;
+            }
+        }
+
         replacement
     }
 
-- 
2.43.0


From 672430a607cebfd62fabaf8cae2d359ca28c0f44 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:04:30 +0000
Subject: [PATCH 49/63] fix: aggregates inside aggregates survive scalar
 replacement

---
 crates/compiler/mir/src/passes/sroa.rs | 223 +++++++++++++++++++------
 1 file changed, 169 insertions(+), 54 deletions(-)

diff --git a/crates/compiler/mir/src/passes/sroa.rs b/crates/compiler/mir/src/passes/sroa.rs
index cd29991..154783e 100644
--- a/crates/compiler/mir/src/passes/sroa.rs
+++ b/crates/compiler/mir/src/passes/sroa.rs
@@ -718,6 +718,62 @@ impl ScalarReplacementOfAggregates {
         }
     }
 
+    /// Remove the deferred definitions nothing uses: no instruction kept in the block, no phi
+    /// of it, not its terminator and no other block.
+    fn drop_unneeded(
+        &self,
+        bb: BasicBlockId,
+        instructions: &mut Vec<Instruction>,
+        return_values: Option<&[Value]>,
+        terminator: &crate::Terminator,
+        deferred: &FxHashSet<ValueId>,
+        used_in: &FxHashMap<ValueId, FxHashSet<BasicBlockId>>,
+    ) {
+        if deferred.is_empty() {
+            return;
+        }
+        let mut needed: FxHashSet<ValueId> = deferred
+            .iter()
+            .filter(|id| {
+                used_in
+                    .get(id)
+                    .is_some_and(|blocks| blocks.iter().any(|b| *b != bb))
+            })
+            .copied()
+            .collect();
+        match return_values {
+            Some(values) => needed.extend(values.iter().filter_map(|v| v.as_operand())),
+            None => self.collect_value_uses_in_terminator(terminator, |id| {
+                needed.insert(id);
+            }),
+        }
+        for inst in instructions.iter() {
+            if matches!(inst.kind, InstructionKind::Phi { .. }) {
+                self.collect_value_uses_in_instruction(&inst.kind, |id| {
+                    needed.insert(id);
+                });
+            }
+        }
+        // Definitions precede their uses, so one walk backwards sees every use first
+        let mut kept = Vec::with_capacity(instructions.len());
+        for inst in instructions.drain(..).rev() {
+            let dest = match &inst.kind {
+                InstructionKind::MakeTuple { dest, .. }
+                | InstructionKind::MakeStruct { dest, .. } => Some(dest),
+                _ => None,
+            };
+            if dest.is_some_and(|id| deferred.contains(id) && !needed.contains(id)) {
+                continue;
+            }
+            self.collect_value_uses_in_instruction(&inst.kind, |id| {
+                needed.insert(id);
+            });
+            kept.push(inst);
+        }
+        kept.reverse();
+        *instructions = kept;
+    }
+
     /// Helper to collect all value uses in a terminator
     fn collect_value_uses_in_terminator<F>(&self, term: &crate::Terminator, mut callback: F)
     where
@@ -759,6 +815,18 @@ impl MirPass for ScalarReplacementOfAggregates {
         // Phase 1: Analyze which aggregates are used across block boundaries
         let cross_block_aggregates = self.find_cross_block_aggregates(function);
 
+        // The blocks each value is used in
+        let mut used_in: FxHashMap<ValueId, FxHashSet<BasicBlockId>> = FxHashMap::default();
+        for (block_id, block) in function.basic_blocks.iter_enumerated() {
+            let mut note = |id: ValueId| {
+                used_in.entry(id).or_default().insert(block_id);
+            };
+            for inst in &block.instructions {
+                self.collect_value_uses_in_instruction(&inst.kind, &mut note);
+            }
+            self.collect_value_uses_in_terminator(&block.terminator, &mut note);
+        }
+
         // Process blocks one by one; preserve phi prefix ordering
         let block_count = function.block_count();
         for raw in 0..block_count {
@@ -798,6 +866,9 @@ impl MirPass for ScalarReplacementOfAggregates {
 
             let mut block_modified = false;
 
+            // Definitions of tracked aggregates that only stay if something still needs them
+            let mut deferred: FxHashSet<ValueId> = FxHashSet::default();
+
             // Collect all instructions for forward-looking
             let all_instructions: Vec<_> = block.non_phi_instructions().cloned().collect();
 
@@ -858,7 +929,9 @@ impl MirPass for ScalarReplacementOfAggregates {
                             continue;
                         }
 
-                        agg_states.insert(*dest, AggState::tuple(elements.clone()));
+                        let state = AggState::tuple(elements.clone());
+                        defer(function, &mut new_instrs, &mut deferred, *dest, &state);
+                        agg_states.insert(*dest, state);
                         self.stats.scalarized_builds += 1;
                         block_modified = true;
                     }
@@ -896,6 +969,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                         };
 
                         if let Some(state) = AggState::from_struct_fields(fields, ty_fields) {
+                            defer(function, &mut new_instrs, &mut deferred, *dest, &state);
                             agg_states.insert(*dest, state);
                             self.stats.scalarized_builds += 1;
                             block_modified = true;
@@ -975,6 +1049,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                             continue;
                         }
                         next.elems[*index] = *new_value;
+                        defer(function, &mut new_instrs, &mut deferred, *dest, &next);
                         agg_states.insert(*dest, next);
                         self.stats.inserts_forwarded += 1;
                         block_modified = true;
@@ -1005,6 +1080,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                             continue;
                         }
                         next.elems[field_index] = *new_value;
+                        defer(function, &mut new_instrs, &mut deferred, *dest, &next);
                         agg_states.insert(*dest, next);
                         self.stats.inserts_forwarded += 1;
                         block_modified = true;
@@ -1033,9 +1109,10 @@ impl MirPass for ScalarReplacementOfAggregates {
 
                         // Check if the extracted element is itself an aggregate that's been scalarized
                         if let Value::Operand(elem_val_id) = &scalar {
-                            if let Some(elem_state) = agg_states.get(elem_val_id) {
+                            if let Some(elem_state) = agg_states.get(elem_val_id).cloned() {
                                 // The extracted element is a scalarized aggregate - propagate its state
-                                agg_states.insert(*dest, elem_state.clone());
+                                defer(function, &mut new_instrs, &mut deferred, *dest, &elem_state);
+                                agg_states.insert(*dest, elem_state);
                                 self.stats.extracts_rewritten += 1;
                                 block_modified = true;
                                 continue;
@@ -1080,9 +1157,10 @@ impl MirPass for ScalarReplacementOfAggregates {
 
                         // Check if the extracted field is itself an aggregate that's been scalarized
                         if let Value::Operand(field_val_id) = &scalar {
-                            if let Some(field_state) = agg_states.get(field_val_id) {
+                            if let Some(field_state) = agg_states.get(field_val_id).cloned() {
                                 // The extracted field is a scalarized aggregate - propagate its state
-                                agg_states.insert(*dest, field_state.clone());
+                                defer(function, &mut new_instrs, &mut deferred, *dest, &field_state);
+                                agg_states.insert(*dest, field_state);
                                 self.stats.extracts_rewritten += 1;
                                 block_modified = true;
                                 continue;
@@ -1121,14 +1199,15 @@ impl MirPass for ScalarReplacementOfAggregates {
                             // If we ended on a tracked aggregate operand and expecting an aggregate type,
                             // propagate its state instead of assigning the operand directly
                             if let Value::Operand(agg_id) = final_val {
-                                if let Some(state) = agg_states.get(&agg_id) {
+                                if let Some(state) = agg_states.get(&agg_id).cloned() {
                                     if matches!(
                                         ty,
                                         MirType::Tuple(_)
                                             | MirType::Struct { .. }
                                             | MirType::FixedArray { .. }
                                     ) {
-                                        agg_states.insert(*dest, state.clone());
+                                        defer(function, &mut new_instrs, &mut deferred, *dest, &state);
+                                        agg_states.insert(*dest, state);
                                         self.stats.extracts_rewritten += 1;
                                         block_modified = true;
                                         continue;
@@ -1148,7 +1227,14 @@ impl MirPass for ScalarReplacementOfAggregates {
                     // If forwarding is not possible but the stored `value` is a tracked aggregate,
                     // we must materialize it right before the Store to avoid leaving a dangling use.
                     InstructionKind::Store { place, value, ty } if self.config.enable_tuples => {
-                        if try_forward_store_chain(function, &mut agg_states, place, *value) {
+                        if try_forward_store_chain(
+                            function,
+                            &mut agg_states,
+                            &mut new_instrs,
+                            &mut deferred,
+                            place,
+                            *value,
+                        ) {
                             self.stats.inserts_forwarded += 1;
                             block_modified = true;
                             // Store forwarded into state; drop instruction
@@ -1206,14 +1292,15 @@ impl MirPass for ScalarReplacementOfAggregates {
                             &place.projections,
                         ) {
                             if let Value::Operand(agg_id) = final_val {
-                                if let Some(state) = agg_states.get(&agg_id) {
+                                if let Some(state) = agg_states.get(&agg_id).cloned() {
                                     if matches!(
                                         ty,
                                         MirType::Tuple(_)
                                             | MirType::Struct { .. }
                                             | MirType::FixedArray { .. }
                                     ) {
-                                        agg_states.insert(*dest, state.clone());
+                                        defer(function, &mut new_instrs, &mut deferred, *dest, &state);
+                                        agg_states.insert(*dest, state);
                                         self.stats.extracts_rewritten += 1;
                                         block_modified = true;
                                         continue;
@@ -1236,6 +1323,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                     } => {
                         if let Value::Operand(src_id) = source {
                             if let Some(state) = agg_states.get(src_id).cloned() {
+                                defer(function, &mut new_instrs, &mut deferred, *dest, &state);
                                 agg_states.insert(*dest, state);
                                 self.stats.assigns_forwarded += 1;
                                 block_modified = true;
@@ -1347,6 +1435,14 @@ impl MirPass for ScalarReplacementOfAggregates {
 
             if block_modified {
                 modified_any = true;
+                self.drop_unneeded(
+                    bb,
+                    &mut new_instrs,
+                    new_return_values.as_deref(),
+                    &block.terminator,
+                    &deferred,
+                    &used_in,
+                );
                 if let Some(block_mut) = function.get_basic_block_mut(bb) {
                     // Reinstall updated instruction list: phi prefix + rewritten tail
                     block_mut.instructions.clear();
@@ -1546,70 +1642,89 @@ fn forward_projection_chain(
 /// any step cannot be resolved conservatively, in which case the original Store
 /// must be kept.
 fn try_forward_store_chain(
-    function: &MirFunction,
+    function: &mut MirFunction,
     agg_states: &mut FxHashMap<ValueId, AggState>,
+    sink: &mut Vec<Instruction>,
+    deferred: &mut FxHashSet<ValueId>,
     place: &crate::Place,
     new_value: Value,
 ) -> bool {
     // Require base to be a tracked array/tuple aggregate and first step to be constant index
-    let Some(Projection::Index(Value::Literal(Literal::Integer(idx)))) = place.projections.first()
+    let Some(Projection::Index(Value::Literal(Literal::Integer(_)))) = place.projections.first()
     else {
         return false;
     };
 
-    let Some(state) = agg_states.get_mut(&place.base) else {
-        return false;
-    };
-    let i = *idx as usize;
-    if i >= state.elems.len() {
-        return false;
-    }
-
-    // If there is only one projection (pure array element update), replace the element
-    if place.projections.len() == 1 {
-        state.elems[i] = new_value;
-        return true;
-    }
-
-    // Otherwise, walk nested projections starting from the selected element
-    let mut current_val = state.elems[i];
-    let mut projections_iter = place.projections.iter().skip(1).peekable();
-
-    while let Some(proj) = projections_iter.next() {
-        // We must have an operand referencing a tracked aggregate state to go deeper
-        let Some(cur_id) = current_val.as_operand() else {
+    // The path from the base to the leaf: each aggregate on it, and the element that continues it
+    let mut path: Vec<(ValueId, usize)> = Vec::with_capacity(place.projections.len());
+    let mut current = Value::operand(place.base);
+    for proj in &place.projections {
+        let Some(id) = current.as_operand() else {
             return false;
         };
-        let Some(cur_state) = agg_states.get_mut(&cur_id) else {
+        let Some(state) = agg_states.get(&id) else {
             return false;
         };
-
-        // Determine the child index based on projection kind
-        let child_index_opt: Option<usize> = match proj {
-            Projection::Tuple(ti) => Some(*ti),
+        let child = match proj {
+            Projection::Tuple(index) => Some(*index),
             Projection::Field(name) => function
-                .get_value_type(cur_id)
+                .get_value_type(id)
                 .and_then(|ty| struct_field_index(ty, name)),
             Projection::Index(v) => v.as_const_integer().map(|x| x as usize),
         };
-
-        let Some(child_index) = child_index_opt else {
+        let Some(child) = child.filter(|i| *i < state.elems.len()) else {
             return false;
         };
-        if child_index >= cur_state.elems.len() {
-            return false;
-        }
+        path.push((id, child));
+        current = state.elems[child];
+    }
 
-        let is_last = projections_iter.peek().is_none();
-        if is_last {
-            // Perform the leaf update
-            cur_state.elems[child_index] = new_value;
-            return true;
-        } else {
-            // Descend into the child for the next iteration
-            current_val = cur_state.elems[child_index];
-        }
+    // The array itself is updated in place; the tuples and structs in it are values that others
+    // may hold as well, so the updated ones are new values.
+    let mut value = new_value;
+    for (id, child) in path.drain(1..).rev() {
+        let (Some(mut state), Some(ty)) = (
+            agg_states.get(&id).cloned(),
+            function.get_value_type(id).cloned(),
+        ) else {
+            return false;
+        };
+        state.elems[child] = value;
+        let copy = function.new_typed_value_id(ty);
+        defer(function, sink, deferred, copy, &state);
+        agg_states.insert(copy, state);
+        value = Value::operand(copy);
+    }
+    let (base, child) = path[0];
+    if let Some(state) = agg_states.get_mut(&base) {
+        state.elems[child] = value;
     }
+    true
+}
 
-    false
+/// Leave the definition of a tracked aggregate where it was: whatever turns out not to be
+/// rewritten (a field of an aggregate that is built after all, say) still finds it, and
+/// it is dropped at the end of the block if there is no such use.
+fn defer(
+    function: &MirFunction,
+    sink: &mut Vec<Instruction>,
+    deferred: &mut FxHashSet<ValueId>,
+    dest: ValueId,
+    state: &AggState,
+) {
+    let definition = match function.get_value_type(dest) {
+        Some(MirType::Tuple(_)) => Instruction::make_tuple(dest, state.elems.clone()),
+        Some(ty @ MirType::Struct { fields, .. }) => {
+            let fields = fields
+                .iter()
+                .zip(&state.elems)
+                .map(|((name, _), value)| (name.clone(), *value))
+                .collect();
+            Instruction::make_struct(dest, fields, ty.clone())
+        }
+        // arrays have an identity: they are not built a second time
+        _ => return,
+    };
+    sink.push(definition);
+    deferred.insert(dest);
 }
-- 
2.43.0


From 935e5bc3ba401a81c42f73b21dddf907f982d7ea Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:10:07 +0000
Subject: [PATCH 50/63] fix: common subexpression elimination keeps calls whose
 result is unused

---
 crates/compiler/mir/src/passes/local_cse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/mir/src/passes/local_cse.rs b/crates/compiler/mir/src/passes/local_cse.rs
index abe9c1e..4315526 100644
--- a/crates/compiler/mir/src/passes/local_cse.rs
+++ b/crates/compiler/mir/src/passes/local_cse.rs
@@ -267,7 +267,10 @@ impl LocalCSE {
         if let Some(block) = function.basic_blocks.get_mut(block_id) {
             // Remove instructions whose destinations are no longer used
             block.instructions.retain(|instr| {
-                if let Some(dest) = instr.destination() {
+                if instr.has_side_effects() {
+                    // A call is made even if nobody uses its result
+                    true
+                } else if let Some(dest) = instr.destination() {
                     // Keep instruction if its result is still used
                     use_counts.get(&dest).copied().unwrap_or(0) > 0
                 } else {
-- 
2.43.0


From aa8633a5d7f96e13ffae7baada4100426d6c0daa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:12:23 +0000
Subject: [PATCH 51/63] fix: arrays with equal elements are not merged

---
 crates/compiler/mir/src/passes/local_cse.rs | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/crates/compiler/mir/src/passes/local_cse.rs b/crates/compiler/mir/src/passes/local_cse.rs
index 4315526..b4c442c 100644
--- a/crates/compiler/mir/src/passes/local_cse.rs
+++ b/crates/compiler/mir/src/passes/local_cse.rs
@@ -178,22 +178,8 @@ impl PureExpressionKey {
             // Cast operations - skip for now
             InstructionKind::Cast { .. } => None,
 
-            // Array operations - can be CSE'd similar to tuples
-            InstructionKind::MakeFixedArray { elements, .. } => {
-                // Only handle all-operand arrays
-                let element_ids: Option<Vec<ValueId>> = elements
-                    .iter()
-                    .map(|v| match v {
-                        Value::Operand(id) => Some(*id),
-                        _ => None,
-                    })
-                    .collect();
-
-                element_ids.map(|ids| Self::MakeTuple {
-                    elements: ids,
-                    tuple_type: MirType::Unknown, // Use MakeTuple variant for simplicity
-                })
-            }
+            // Arrays have an identity: two with equal elements may be written separately
+            InstructionKind::MakeFixedArray { .. } => None,
         }
     }
 }
-- 
2.43.0


From 75dbe21756317dd3525a43e6fdc43f4e30f8e450 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:30:33 +0000
Subject: [PATCH 52/63] fix: copies of structs and tuples keep their own
 contents

The builder updates the source of an insert in place and lets an extract share
the slots of its source. Where the old contents are used again (let b = a;
b.x = 1; or a callee writing to its parameter) both changed, and where a block
before the definition uses the result it read slots nobody wrote.
---
 crates/compiler/codegen/src/generator.rs      |   2 +
 crates/compiler/codegen/src/mir_passes/mod.rs |   1 +
 .../codegen/src/mir_passes/separate.rs        | 368 ++++++++++++++++++
 crates/compiler/mir/src/instruction.rs        |   4 +-
 crates/compiler/mir/src/terminator.rs         |   4 +-
 5 files changed, 375 insertions(+), 4 deletions(-)
 create mode 100644 crates/compiler/codegen/src/mir_passes/separate.rs

diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index 6bd7294..ff3c575 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -15,6 +15,7 @@ use stwo_prover::core::fields::m31::M31;
 use stwo_prover::core::fields::qm31::QM31;
 
 use crate::mir_passes::legalize::legalize_module_for_vm;
+use crate::mir_passes::separate::separate_aggregates;
 use crate::{
     CasmBuilder, CodegenError, CodegenResult, FunctionLayout, InstructionBuilder, Label, passes,
 };
@@ -193,6 +194,7 @@ impl CodeGenerator {
         // Clone MIR and run target-specific legalization so builder can assume invariants.
         let mut legalized = module.clone();
         legalize_module_for_vm(&mut legalized);
+        separate_aggregates(&mut legalized);
 
         // Step 1: Calculate layouts for all functions (post-legalization)
         self.calculate_all_layouts(&legalized)?;
diff --git a/crates/compiler/codegen/src/mir_passes/mod.rs b/crates/compiler/codegen/src/mir_passes/mod.rs
index 1fbf5ca..81098c4 100644
--- a/crates/compiler/codegen/src/mir_passes/mod.rs
+++ b/crates/compiler/codegen/src/mir_passes/mod.rs
@@ -4,3 +4,4 @@
 //! move backend quirks or instruction-set constraints into codegen.
 
 pub mod legalize;
+pub mod separate;
diff --git a/crates/compiler/codegen/src/mir_passes/separate.rs b/crates/compiler/codegen/src/mir_passes/separate.rs
new file mode 100644
index 0000000..6137118
--- /dev/null
+++ b/crates/compiler/codegen/src/mir_passes/separate.rs
@@ -0,0 +1,368 @@
+//! Separation pass: copies of aggregates where sharing their slots would be observable.
+//!
+//! The builder lowers `Extract*` to an alias (the result *is* the slots of the field) and
+//! `Insert*` to an update of the source in place (the result *is* the slots of the source).
+//! Both are only right as long as nobody looks at the old contents of overwritten slots any more.
+//! Where somebody does, this pass inserts a copy:
+//! - `d = insert(s, f, v)`  ==>  `t = s; d = insert(t, f, v)`
+//! - `d = extract(s, f)`    ==>  `t = extract(s, f); d = t`
+//!
+//! Blocks are generated in the order they are in, so a value also needs slots of its own when a
+//! block before the one that defines it uses it:
+//! - `d = insert(s, f, v)`  ==>  `t = insert(s, f, v); d = t`
+//!
+//! Parameters are never updated in place: their slots may be those of a variable of the caller.
+
+use cairo_m_compiler_mir::instruction::InstructionKind;
+use cairo_m_compiler_mir::{
+    BasicBlockId, DataLayout, Instruction, MirFunction, MirModule, MirType, Terminator, Value,
+    ValueId,
+};
+use rustc_hash::{FxHashMap, FxHashSet};
+
+/// Separate the aggregates of a whole module (in place).
+pub fn separate_aggregates(module: &mut MirModule) {
+    for function in module.functions_mut() {
+        separate_function(function);
+    }
+}
+
+/// The slots a value occupies: those from `start` to `end` of the value `root`.
+#[derive(Clone, Copy)]
+struct Region {
+    root: ValueId,
+    start: usize,
+    end: usize,
+}
+
+impl Region {
+    fn overlaps(&self, other: &Self) -> bool {
+        self.root == other.root && self.start < other.end && other.start < self.end
+    }
+}
+
+type Position = (BasicBlockId, usize);
+
+/// What an instruction does to a part of an aggregate.
+enum Access<'a> {
+    Extract(ValueId, &'a MirType, usize),
+    Insert(ValueId, &'a MirType, usize, usize),
+}
+
+fn access<'a>(function: &'a MirFunction, instr: &'a Instruction) -> Option<Access<'a>> {
+    match &instr.kind {
+        InstructionKind::ExtractTupleElement {
+            tuple: Value::Operand(source),
+            index,
+            element_ty,
+            ..
+        } => {
+            let offset = DataLayout::tuple_offset(function.value_types.get(source)?, *index)?;
+            Some(Access::Extract(*source, element_ty, offset))
+        }
+        InstructionKind::ExtractStructField {
+            struct_val: Value::Operand(source),
+            field_name,
+            field_ty,
+            ..
+        } => {
+            let offset = DataLayout::field_offset(function.value_types.get(source)?, field_name)?;
+            Some(Access::Extract(*source, field_ty, offset))
+        }
+        InstructionKind::InsertTuple {
+            tuple_val: Value::Operand(source),
+            index,
+            tuple_ty,
+            ..
+        } => {
+            let offset = DataLayout::tuple_offset(tuple_ty, *index)?;
+            let size = DataLayout::memory_size_of(tuple_ty.tuple_element_type(*index)?);
+            Some(Access::Insert(*source, tuple_ty, offset, size))
+        }
+        InstructionKind::InsertField {
+            struct_val: Value::Operand(source),
+            field_name,
+            struct_ty,
+            ..
+        } => {
+            let offset = DataLayout::field_offset(struct_ty, field_name)?;
+            let size = DataLayout::memory_size_of(struct_ty.field_type(field_name)?);
+            Some(Access::Insert(*source, struct_ty, offset, size))
+        }
+        _ => None,
+    }
+}
+
+fn separate_function(function: &mut MirFunction) {
+    let has_accesses = function.basic_blocks.iter().any(|block| {
+        block
+            .instructions
+            .iter()
+            .any(|i| access(function, i).is_some())
+    });
+    if !has_accesses {
+        return;
+    }
+
+    let analysis = Analysis::new(function);
+    let mut copies: FxHashSet<Position> = FxHashSet::default();
+    while let Some(position) = analysis.conflict(function, &copies) {
+        if !copies.insert(position) {
+            break;
+        }
+    }
+
+    for raw in 0..function.basic_blocks.len() {
+        let block_id = BasicBlockId::from_raw(raw);
+        let old = std::mem::take(&mut function.basic_blocks[block_id].instructions);
+        let mut new = Vec::with_capacity(old.len() + 1);
+        for (idx, instr) in old.into_iter().enumerate() {
+            let copies_source = copies.contains(&(block_id, idx));
+            let copies_result = analysis.early.contains(&(block_id, idx));
+            with_copies(function, instr, copies_source, copies_result, &mut new);
+        }
+        function.basic_blocks[block_id].instructions = new;
+    }
+}
+
+/// Emit an access that copies what it reads, or what it yields, to slots of its own.
+fn with_copies(
+    function: &mut MirFunction,
+    mut instr: Instruction,
+    copies_source: bool,
+    copies_result: bool,
+    out: &mut Vec<Instruction>,
+) {
+    let (dest, ty, copies_result) = match &mut instr.kind {
+        InstructionKind::InsertTuple {
+            dest,
+            tuple_val: source,
+            tuple_ty: ty,
+            ..
+        }
+        | InstructionKind::InsertField {
+            dest,
+            struct_val: source,
+            struct_ty: ty,
+            ..
+        } => {
+            if copies_source {
+                let copy = function.new_typed_value_id(ty.clone());
+                out.push(Instruction::assign(copy, *source, ty.clone()));
+                *source = Value::operand(copy);
+            }
+            (dest, ty.clone(), copies_result)
+        }
+        InstructionKind::ExtractTupleElement {
+            dest,
+            element_ty: ty,
+            ..
+        }
+        | InstructionKind::ExtractStructField {
+            dest, field_ty: ty, ..
+        } => (dest, ty.clone(), copies_source || copies_result),
+        _ => {
+            out.push(instr);
+            return;
+        }
+    };
+    if !copies_result {
+        out.push(instr);
+        return;
+    }
+    let shared = function.new_typed_value_id(ty.clone());
+    let own = std::mem::replace(dest, shared);
+    out.push(instr);
+    out.push(Instruction::assign(own, Value::operand(shared), ty));
+}
+
+struct Analysis {
+    /// The values live at the end of each block
+    live_out: FxHashMap<BasicBlockId, FxHashSet<ValueId>>,
+    /// How often each value is assigned
+    definitions: FxHashMap<ValueId, usize>,
+    /// The accesses whose result is used by code that is generated before them
+    early: FxHashSet<Position>,
+}
+
+fn operands_of_terminator(terminator: &Terminator) -> Vec<ValueId> {
+    terminator.used_values().into_iter().collect()
+}
+
+impl Analysis {
+    fn new(function: &MirFunction) -> Self {
+        let mut definitions: FxHashMap<ValueId, usize> = FxHashMap::default();
+        for block in function.basic_blocks.iter() {
+            for instr in &block.instructions {
+                for dest in instr.destinations() {
+                    *definitions.entry(dest).or_default() += 1;
+                }
+            }
+        }
+
+        let mut used: FxHashSet<ValueId> = FxHashSet::default();
+        let mut early: FxHashSet<Position> = FxHashSet::default();
+        for (block_id, block) in function.basic_blocks.iter_enumerated() {
+            for (idx, instr) in block.instructions.iter().enumerate() {
+                let dest = instr.destination();
+                if access(function, instr).is_some() && dest.is_some_and(|d| used.contains(&d)) {
+                    early.insert((block_id, idx));
+                }
+                used.extend(instr.used_values());
+            }
+            used.extend(operands_of_terminator(&block.terminator));
+        }
+
+        let mut live_in: FxHashMap<BasicBlockId, FxHashSet<ValueId>> = FxHashMap::default();
+        let mut live_out: FxHashMap<BasicBlockId, FxHashSet<ValueId>> = FxHashMap::default();
+        let mut changed = true;
+        while changed {
+            changed = false;
+            for raw in (0..function.basic_blocks.len()).rev() {
+                let id = BasicBlockId::from_raw(raw);
+                let block = &function.basic_blocks[id];
+                let mut live: FxHashSet<ValueId> = FxHashSet::default();
+                for target in block.terminator.target_blocks() {
+                    if let Some(values) = live_in.get(&target) {
+                        live.extend(values);
+                    }
+                }
+                live_out.insert(id, live.clone());
+                live.extend(operands_of_terminator(&block.terminator));
+                for instr in block.instructions.iter().rev() {
+                    for dest in instr.destinations() {
+                        live.remove(&dest);
+                    }
+                    live.extend(instr.used_values());
+                }
+                if live_in.get(&id) != Some(&live) {
+                    live_in.insert(id, live);
+                    changed = true;
+                }
+            }
+        }
+        Self {
+            live_out,
+            definitions,
+            early,
+        }
+    }
+
+    /// The first access that has to copy, given the ones known to.
+    fn conflict(&self, function: &MirFunction, copies: &FxHashSet<Position>) -> Option<Position> {
+        // Where each value is kept, and the access that put it there
+        let mut regions: FxHashMap<ValueId, Region> = FxHashMap::default();
+        let mut sharers: FxHashMap<ValueId, Position> = FxHashMap::default();
+        let own = |id: ValueId| Region {
+            root: id,
+            start: 0,
+            end: function
+                .value_types
+                .get(&id)
+                .map_or(1, DataLayout::memory_size_of),
+        };
+
+        for (block_id, block) in function.basic_blocks.iter_enumerated() {
+            for (idx, instr) in block.instructions.iter().enumerate() {
+                if copies.contains(&(block_id, idx)) {
+                    continue;
+                }
+                let Some(dest) = instr.destination() else {
+                    continue;
+                };
+                match access(function, instr) {
+                    Some(Access::Extract(source, ty, offset)) => {
+                        let base = regions.get(&source).copied().unwrap_or_else(|| own(source));
+                        let start = base.start + offset;
+                        let region = Region {
+                            root: base.root,
+                            start,
+                            end: start + DataLayout::memory_size_of(ty),
+                        };
+                        if !self.early.contains(&(block_id, idx)) {
+                            regions.insert(dest, region);
+                            sharers.insert(dest, (block_id, idx));
+                        }
+                    }
+                    Some(Access::Insert(source, ty, offset, size)) => {
+                        let base = regions.get(&source).copied().unwrap_or_else(|| own(source));
+                        if function.parameters.contains(&base.root) {
+                            return Some((block_id, idx));
+                        }
+                        let start = base.start + offset;
+                        let written = Region {
+                            root: base.root,
+                            start,
+                            end: start + size,
+                        };
+                        let observed = self
+                            .sharing(&regions, &own, base.root)
+                            .filter(|(id, region)| *id != dest && region.overlaps(&written))
+                            .any(|(id, _)| self.live_after(function, (block_id, idx), id));
+                        if observed {
+                            return Some((block_id, idx));
+                        }
+                        let region = Region {
+                            end: base.start + DataLayout::memory_size_of(ty),
+                            ..base
+                        };
+                        if !self.early.contains(&(block_id, idx)) {
+                            regions.insert(dest, region);
+                            sharers.insert(dest, (block_id, idx));
+                        }
+                    }
+                    None => {}
+                }
+            }
+        }
+
+        // A variable that is assigned again must not take the values in its old slots with it
+        for (block_id, block) in function.basic_blocks.iter_enumerated() {
+            for (idx, instr) in block.instructions.iter().enumerate() {
+                for dest in instr.destinations() {
+                    if self.definitions.get(&dest).copied().unwrap_or(0) < 2 {
+                        continue;
+                    }
+                    for (id, position) in &sharers {
+                        if *id != dest
+                            && regions[id].root == dest
+                            && self.live_after(function, (block_id, idx), *id)
+                        {
+                            return Some(*position);
+                        }
+                    }
+                }
+            }
+        }
+        None
+    }
+
+    /// The values kept in the slots of `root`
+    fn sharing<'a>(
+        &self,
+        regions: &'a FxHashMap<ValueId, Region>,
+        own: &impl Fn(ValueId) -> Region,
+        root: ValueId,
+    ) -> impl Iterator<Item = (ValueId, Region)> + 'a {
+        let whole = own(root);
+        regions
+            .iter()
+            .filter(move |(_, region)| region.root == root)
+            .map(|(id, region)| (*id, *region))
+            .chain(std::iter::once((root, whole)))
+    }
+
+    fn live_after(&self, function: &MirFunction, at: Position, id: ValueId) -> bool {
+        let block = &function.basic_blocks[at.0];
+        for instr in &block.instructions[at.1 + 1..] {
+            if instr.used_values().contains(&id) {
+                return true;
+            }
+            if instr.destinations().contains(&id) {
+                return false;
+            }
+        }
+        operands_of_terminator(&block.terminator).contains(&id)
+            || self.live_out[&at.0].contains(&id)
+    }
+}
diff --git a/crates/compiler/mir/src/instruction.rs b/crates/compiler/mir/src/instruction.rs
index 2e9fa70..5bd56dc 100644
--- a/crates/compiler/mir/src/instruction.rs
+++ b/crates/compiler/mir/src/instruction.rs
@@ -699,7 +699,7 @@ impl Instruction {
     }
 
     /// Returns the destination value if this instruction defines exactly one
-    pub(crate) fn destination(&self) -> Option<ValueId> {
+    pub fn destination(&self) -> Option<ValueId> {
         let dests = self.destinations();
         if dests.len() == 1 {
             Some(dests[0])
@@ -709,7 +709,7 @@ impl Instruction {
     }
 
     /// Returns all values used by this instruction
-    pub(crate) fn used_values(&self) -> HashSet<ValueId> {
+    pub fn used_values(&self) -> HashSet<ValueId> {
         let mut used = HashSet::new();
 
         match &self.kind {
diff --git a/crates/compiler/mir/src/terminator.rs b/crates/compiler/mir/src/terminator.rs
index 4d5e7c0..c8a4d7f 100644
--- a/crates/compiler/mir/src/terminator.rs
+++ b/crates/compiler/mir/src/terminator.rs
@@ -114,7 +114,7 @@ impl Terminator {
     /// Returns all basic block targets of this terminator
     ///
     /// This is used for CFG construction and analysis.
-    pub(crate) fn target_blocks(&self) -> Vec<BasicBlockId> {
+    pub fn target_blocks(&self) -> Vec<BasicBlockId> {
         match self {
             Self::Jump { target } => vec![*target],
             Self::If {
@@ -133,7 +133,7 @@ impl Terminator {
     }
 
     /// Returns all values used by this terminator
-    pub(crate) fn used_values(&self) -> HashSet<crate::ValueId> {
+    pub fn used_values(&self) -> HashSet<crate::ValueId> {
         let mut used = HashSet::new();
 
         match self {
-- 
2.43.0


From d9ca13a6a77696baef45031d79d24b9f92ec11b9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:14:08 +0000
Subject: [PATCH 53/63] fix: results of calls that an earlier block uses get
 slots of their own

---
 .../codegen/src/mir_passes/separate.rs        | 134 +++++++++---------
 1 file changed, 70 insertions(+), 64 deletions(-)

diff --git a/crates/compiler/codegen/src/mir_passes/separate.rs b/crates/compiler/codegen/src/mir_passes/separate.rs
index 6137118..a19bd6d 100644
--- a/crates/compiler/codegen/src/mir_passes/separate.rs
+++ b/crates/compiler/codegen/src/mir_passes/separate.rs
@@ -7,9 +7,10 @@
 //! - `d = insert(s, f, v)`  ==>  `t = s; d = insert(t, f, v)`
 //! - `d = extract(s, f)`    ==>  `t = extract(s, f); d = t`
 //!
-//! Blocks are generated in the order they are in, so a value also needs slots of its own when a
-//! block before the one that defines it uses it:
-//! - `d = insert(s, f, v)`  ==>  `t = insert(s, f, v); d = t`
+//! The results of a `Call` are the slots the callee leaves them in. Blocks are generated in the
+//! order they are in, so where a block before the one that defines a value uses it, that value
+//! needs slots that are known beforehand:
+//! - `d = call f(..)`  ==>  `t = call f(..); d = t`
 //!
 //! Parameters are never updated in place: their slots may be those of a variable of the caller.
 
@@ -94,6 +95,8 @@ fn access<'a>(function: &'a MirFunction, instr: &'a Instruction) -> Option<Acces
 }
 
 fn separate_function(function: &mut MirFunction) {
+    separate_early_uses(function);
+
     let has_accesses = function.basic_blocks.iter().any(|block| {
         block
             .instructions
@@ -117,63 +120,86 @@ fn separate_function(function: &mut MirFunction) {
         let old = std::mem::take(&mut function.basic_blocks[block_id].instructions);
         let mut new = Vec::with_capacity(old.len() + 1);
         for (idx, instr) in old.into_iter().enumerate() {
-            let copies_source = copies.contains(&(block_id, idx));
-            let copies_result = analysis.early.contains(&(block_id, idx));
-            with_copies(function, instr, copies_source, copies_result, &mut new);
+            if copies.contains(&(block_id, idx)) {
+                with_copy(function, instr, &mut new);
+            } else {
+                new.push(instr);
+            }
         }
         function.basic_blocks[block_id].instructions = new;
     }
 }
 
-/// Emit an access that copies what it reads, or what it yields, to slots of its own.
-fn with_copies(
-    function: &mut MirFunction,
-    mut instr: Instruction,
-    copies_source: bool,
-    copies_result: bool,
-    out: &mut Vec<Instruction>,
-) {
-    let (dest, ty, copies_result) = match &mut instr.kind {
+/// Emit an access that does not share slots with its source.
+fn with_copy(function: &mut MirFunction, mut instr: Instruction, out: &mut Vec<Instruction>) {
+    match &mut instr.kind {
         InstructionKind::InsertTuple {
-            dest,
             tuple_val: source,
             tuple_ty: ty,
             ..
         }
         | InstructionKind::InsertField {
-            dest,
             struct_val: source,
             struct_ty: ty,
             ..
         } => {
-            if copies_source {
-                let copy = function.new_typed_value_id(ty.clone());
-                out.push(Instruction::assign(copy, *source, ty.clone()));
-                *source = Value::operand(copy);
-            }
-            (dest, ty.clone(), copies_result)
-        }
-        InstructionKind::ExtractTupleElement {
-            dest,
-            element_ty: ty,
-            ..
-        }
-        | InstructionKind::ExtractStructField {
-            dest, field_ty: ty, ..
-        } => (dest, ty.clone(), copies_source || copies_result),
-        _ => {
+            let copy = function.new_typed_value_id(ty.clone());
+            out.push(Instruction::assign(copy, *source, ty.clone()));
+            *source = Value::operand(copy);
             out.push(instr);
-            return;
         }
+        InstructionKind::ExtractTupleElement { .. }
+        | InstructionKind::ExtractStructField { .. } => {
+            with_own_slots(function, instr, |_| true, out)
+        }
+        _ => out.push(instr),
+    }
+}
+
+/// Emit an instruction, and behind it copies of the `chosen` of its results to slots of their own.
+fn with_own_slots(
+    function: &mut MirFunction,
+    mut instr: Instruction,
+    chosen: impl Fn(ValueId) -> bool,
+    out: &mut Vec<Instruction>,
+) {
+    let results: Vec<&mut ValueId> = match &mut instr.kind {
+        InstructionKind::Call { dests, .. } => dests.iter_mut().collect(),
+        InstructionKind::ExtractTupleElement { dest, .. }
+        | InstructionKind::ExtractStructField { dest, .. }
+        | InstructionKind::InsertTuple { dest, .. }
+        | InstructionKind::InsertField { dest, .. } => vec![dest],
+        _ => vec![],
     };
-    if !copies_result {
-        out.push(instr);
-        return;
+    let mut copies = Vec::new();
+    for result in results {
+        let own = *result;
+        let ty = function.value_types.get(&own).cloned();
+        if let (Some(ty), true) = (ty, chosen(own)) {
+            *result = function.new_typed_value_id(ty.clone());
+            copies.push(Instruction::assign(own, Value::operand(*result), ty));
+        }
     }
-    let shared = function.new_typed_value_id(ty.clone());
-    let own = std::mem::replace(dest, shared);
     out.push(instr);
-    out.push(Instruction::assign(own, Value::operand(shared), ty));
+    out.append(&mut copies);
+}
+
+/// Results that an earlier block uses get slots of their own.
+fn separate_early_uses(function: &mut MirFunction) {
+    let mut used: FxHashSet<ValueId> = FxHashSet::default();
+    for raw in 0..function.basic_blocks.len() {
+        let block_id = BasicBlockId::from_raw(raw);
+        let old = std::mem::take(&mut function.basic_blocks[block_id].instructions);
+        let mut new = Vec::with_capacity(old.len());
+        for instr in old {
+            let operands = instr.used_values();
+            with_own_slots(function, instr, |result| used.contains(&result), &mut new);
+            used.extend(operands);
+        }
+        let block = &mut function.basic_blocks[block_id];
+        block.instructions = new;
+        used.extend(block.terminator.used_values());
+    }
 }
 
 struct Analysis {
@@ -181,8 +207,6 @@ struct Analysis {
     live_out: FxHashMap<BasicBlockId, FxHashSet<ValueId>>,
     /// How often each value is assigned
     definitions: FxHashMap<ValueId, usize>,
-    /// The accesses whose result is used by code that is generated before them
-    early: FxHashSet<Position>,
 }
 
 fn operands_of_terminator(terminator: &Terminator) -> Vec<ValueId> {
@@ -200,19 +224,6 @@ impl Analysis {
             }
         }
 
-        let mut used: FxHashSet<ValueId> = FxHashSet::default();
-        let mut early: FxHashSet<Position> = FxHashSet::default();
-        for (block_id, block) in function.basic_blocks.iter_enumerated() {
-            for (idx, instr) in block.instructions.iter().enumerate() {
-                let dest = instr.destination();
-                if access(function, instr).is_some() && dest.is_some_and(|d| used.contains(&d)) {
-                    early.insert((block_id, idx));
-                }
-                used.extend(instr.used_values());
-            }
-            used.extend(operands_of_terminator(&block.terminator));
-        }
-
         let mut live_in: FxHashMap<BasicBlockId, FxHashSet<ValueId>> = FxHashMap::default();
         let mut live_out: FxHashMap<BasicBlockId, FxHashSet<ValueId>> = FxHashMap::default();
         let mut changed = true;
@@ -244,7 +255,6 @@ impl Analysis {
         Self {
             live_out,
             definitions,
-            early,
         }
     }
 
@@ -279,10 +289,8 @@ impl Analysis {
                             start,
                             end: start + DataLayout::memory_size_of(ty),
                         };
-                        if !self.early.contains(&(block_id, idx)) {
-                            regions.insert(dest, region);
-                            sharers.insert(dest, (block_id, idx));
-                        }
+                        regions.insert(dest, region);
+                        sharers.insert(dest, (block_id, idx));
                     }
                     Some(Access::Insert(source, ty, offset, size)) => {
                         let base = regions.get(&source).copied().unwrap_or_else(|| own(source));
@@ -306,10 +314,8 @@ impl Analysis {
                             end: base.start + DataLayout::memory_size_of(ty),
                             ..base
                         };
-                        if !self.early.contains(&(block_id, idx)) {
-                            regions.insert(dest, region);
-                            sharers.insert(dest, (block_id, idx));
-                        }
+                        regions.insert(dest, region);
+                        sharers.insert(dest, (block_id, idx));
                     }
                     None => {}
                 }
-- 
2.43.0


From b0b0ba613c07899d3f5fbc939b8c02f42df6a4db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:20:20 +0000
Subject: [PATCH 54/63] fix: a literal stored to a field behind a dynamic index
 goes to that field

---
 crates/compiler/codegen/src/generator.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index ff3c575..f782913 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -1152,6 +1152,20 @@ impl CodeGenerator {
                 }
 
                 let elem_size = DataLayout::memory_size_of(ty);
+                // A single-slot literal behind a dynamic index is stored at one computed offset,
+                // which includes that of the field.
+                if let (Value::Literal(_), 1, Some(off)) = (value, elem_size, dyn_off) {
+                    if imm_off != 0 {
+                        let sum = builder.layout.reserve_stack(1);
+                        builder.felt_add_fp_imm(
+                            off,
+                            imm_off,
+                            sum,
+                            format!("[fp + {sum}] = [fp + {off}] + {imm_off} (field offset)"),
+                        );
+                        dyn_off = Some(sum);
+                    }
+                }
                 match value {
                     Value::Literal(Literal::Integer(v)) => {
                         if elem_size == 1 {
-- 
2.43.0


From df4bff4cbe5922d8c08af89fb210acc0b9cd5130 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:21:10 +0000
Subject: [PATCH 55/63] fix: parallel copies of literals wait for the readers
 of their destination

---
 .../mir/src/passes/phi_elimination.rs         | 26 +++++--------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/crates/compiler/mir/src/passes/phi_elimination.rs b/crates/compiler/mir/src/passes/phi_elimination.rs
index fa749ac..21c0770 100644
--- a/crates/compiler/mir/src/passes/phi_elimination.rs
+++ b/crates/compiler/mir/src/passes/phi_elimination.rs
@@ -122,18 +122,9 @@ impl PhiElimination {
     fn build_dependency_graph(&self, copies: &[Instruction]) -> FxHashMap<ValueId, Vec<ValueId>> {
         let mut graph = FxHashMap::default();
 
-        // Build a map of destination -> source for all copies
-        let mut dest_to_source: FxHashMap<ValueId, ValueId> = FxHashMap::default();
-        for copy in copies {
-            if let InstructionKind::Assign {
-                dest,
-                source: Value::Operand(src_id),
-                ..
-            } = &copy.kind
-            {
-                dest_to_source.insert(*dest, *src_id);
-            }
-        }
+        // The destinations of all copies, those of literals included
+        let destinations: HashSet<ValueId> =
+            copies.iter().filter_map(Instruction::destination).collect();
 
         // Build dependency edges: if copy A writes to a value that copy B reads,
         // then B depends on A (must happen before A)
@@ -145,14 +136,9 @@ impl PhiElimination {
             } = &copy.kind
             {
                 // Check if any other copy writes to our source
-                for other_dest in dest_to_source.keys() {
-                    if other_dest == src_id {
-                        // We depend on the copy that writes our source
-                        graph
-                            .entry(*dest)
-                            .or_insert_with(Vec::new)
-                            .push(*other_dest);
-                    }
+                if destinations.contains(src_id) {
+                    // We depend on the copy that writes our source
+                    graph.entry(*dest).or_insert_with(Vec::new).push(*src_id);
                 }
             }
         }
-- 
2.43.0


From 109ba38c16ab41e1e4ca553a2fd8064b39ed3437 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:46:35 +0000
Subject: [PATCH 56/63] fix: elements of arrays that are no tracked aggregates
 are read and updated

---
 crates/compiler/mir/src/passes/sroa.rs | 73 ++++++++++++++++++++------
 1 file changed, 58 insertions(+), 15 deletions(-)

diff --git a/crates/compiler/mir/src/passes/sroa.rs b/crates/compiler/mir/src/passes/sroa.rs
index 154783e..2a3626b 100644
--- a/crates/compiler/mir/src/passes/sroa.rs
+++ b/crates/compiler/mir/src/passes/sroa.rs
@@ -1193,6 +1193,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                         if let Some(final_val) = forward_projection_chain(
                             function,
                             &agg_states,
+                            &mut new_instrs,
                             Value::operand(place.base),
                             &place.projections,
                         ) {
@@ -1288,6 +1289,7 @@ impl MirPass for ScalarReplacementOfAggregates {
                         if let Some(final_val) = forward_projection_chain(
                             function,
                             &agg_states,
+                            &mut new_instrs,
                             Value::operand(place.base),
                             &place.projections,
                         ) {
@@ -1583,14 +1585,16 @@ mod tests;
 /// operand. Returns None when the chain cannot be resolved (e.g., dynamic index,
 /// missing aggregate state, or mismatched projection for the aggregate kind).
 fn forward_projection_chain(
-    function: &MirFunction,
+    function: &mut MirFunction,
     agg_states: &FxHashMap<ValueId, AggState>,
+    sink: &mut Vec<Instruction>,
     current: Value,
     projections: &[Projection],
 ) -> Option<Value> {
     // Walk each projection step by step, using AggState when the current value
-    // is an operand with tracked aggregate contents. If the current value is a
-    // literal, we cannot project further.
+    // is an operand with tracked aggregate contents, and extracting from it when it is
+    // a tuple or struct that is not tracked. If the current value is a literal, we cannot
+    // project further.
     let mut value = current;
 
     for proj in projections {
@@ -1601,7 +1605,7 @@ fn forward_projection_chain(
 
                 // Expect current to be an operand referencing a tracked array/tuple aggregate
                 let cur_id = value.as_operand()?;
-                let state = agg_states.get(&cur_id)?;
+                let state = components(function, agg_states, sink, cur_id)?;
                 if idx >= state.elems.len() {
                     return None;
                 }
@@ -1610,7 +1614,7 @@ fn forward_projection_chain(
             Projection::Tuple(index) => {
                 // Tuple projection: requires a tracked tuple state
                 let cur_id = value.as_operand()?;
-                let state = agg_states.get(&cur_id)?;
+                let state = components(function, agg_states, sink, cur_id)?;
                 let i = *index;
                 if i >= state.elems.len() {
                     return None;
@@ -1622,7 +1626,7 @@ fn forward_projection_chain(
                 let cur_id = value.as_operand()?;
                 let ty = function.get_value_type(cur_id)?;
                 let field_index = struct_field_index(ty, name)?;
-                let state = agg_states.get(&cur_id)?;
+                let state = components(function, agg_states, sink, cur_id)?;
                 if field_index >= state.elems.len() {
                     return None;
                 }
@@ -1634,6 +1638,48 @@ fn forward_projection_chain(
     Some(value)
 }
 
+/// The components of an aggregate: those of its tracked state or, for a tuple or struct that is
+/// not tracked (a parameter, the result of a call), extracted from it.
+fn components(
+    function: &mut MirFunction,
+    agg_states: &FxHashMap<ValueId, AggState>,
+    sink: &mut Vec<Instruction>,
+    id: ValueId,
+) -> Option<AggState> {
+    if let Some(state) = agg_states.get(&id) {
+        return Some(state.clone());
+    }
+    let mut elems = Vec::new();
+    match function.get_value_type(id)?.clone() {
+        MirType::Tuple(types) => {
+            for (index, ty) in types.into_iter().enumerate() {
+                let dest = function.new_typed_value_id(ty.clone());
+                sink.push(Instruction::extract_tuple_element(
+                    dest,
+                    Value::operand(id),
+                    index,
+                    ty,
+                ));
+                elems.push(Value::operand(dest));
+            }
+        }
+        MirType::Struct { fields, .. } => {
+            for (name, ty) in fields {
+                let dest = function.new_typed_value_id(ty.clone());
+                sink.push(Instruction::extract_struct_field(
+                    dest,
+                    Value::operand(id),
+                    name,
+                    ty,
+                ));
+                elems.push(Value::operand(dest));
+            }
+        }
+        _ => return None,
+    }
+    Some(AggState::tuple(elems))
+}
+
 /// Try to forward an in-place Store through tracked aggregate states.
 ///
 /// Supports nested projections starting from an array element with a constant index,
@@ -1656,13 +1702,13 @@ fn try_forward_store_chain(
     };
 
     // The path from the base to the leaf: each aggregate on it, and the element that continues it
-    let mut path: Vec<(ValueId, usize)> = Vec::with_capacity(place.projections.len());
+    let mut path: Vec<(ValueId, AggState, usize)> = Vec::with_capacity(place.projections.len());
     let mut current = Value::operand(place.base);
     for proj in &place.projections {
         let Some(id) = current.as_operand() else {
             return false;
         };
-        let Some(state) = agg_states.get(&id) else {
+        let Some(state) = components(function, agg_states, sink, id) else {
             return false;
         };
         let child = match proj {
@@ -1675,18 +1721,15 @@ fn try_forward_store_chain(
         let Some(child) = child.filter(|i| *i < state.elems.len()) else {
             return false;
         };
-        path.push((id, child));
         current = state.elems[child];
+        path.push((id, state, child));
     }
 
     // The array itself is updated in place; the tuples and structs in it are values that others
     // may hold as well, so the updated ones are new values.
     let mut value = new_value;
-    for (id, child) in path.drain(1..).rev() {
-        let (Some(mut state), Some(ty)) = (
-            agg_states.get(&id).cloned(),
-            function.get_value_type(id).cloned(),
-        ) else {
+    for (id, mut state, child) in path.drain(1..).rev() {
+        let Some(ty) = function.get_value_type(id).cloned() else {
             return false;
         };
         state.elems[child] = value;
@@ -1695,7 +1738,7 @@ fn try_forward_store_chain(
         agg_states.insert(copy, state);
         value = Value::operand(copy);
     }
-    let (base, child) = path[0];
+    let (base, child) = (path[0].0, path[0].2);
     if let Some(state) = agg_states.get_mut(&base) {
         state.elems[child] = value;
     }
-- 
2.43.0


From 4ae4ea090a339b0a519d779206e40c34ace2e312 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:52:55 +0000
Subject: [PATCH 57/63] fix: a type named after something that is no struct
 does not overflow the analysis

---
 crates/compiler/semantic/src/type_resolution.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index a52ca8a..933b460 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -58,6 +58,13 @@ pub fn resolve_ast_type<'db>(
                     // Try to resolve as a struct type using scope-chain helper (supports forward refs)
                     semantic_index
                         .latest_definition_index_by_name_in_chain(context_scope_id, name_str)
+                        // The type of anything else may depend on the very type being resolved
+                        .filter(|def_idx| {
+                            matches!(
+                                semantic_index.definition(*def_idx).map(|d| &d.kind),
+                                Some(DefinitionKind::Struct(_) | DefinitionKind::Use(_))
+                            )
+                        })
                         .map(|def_idx| {
                             let def_id = DefinitionId::new(db, file, def_idx);
                             let def_type = definition_semantic_type(db, crate_id, def_id);
-- 
2.43.0


From d2a700d4fea6c1950048ab5f0f07cffb762395a3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:53:50 +0000
Subject: [PATCH 58/63] fix: structs that contain themselves are reported
 instead of overflowing the analysis

---
 .../compiler/semantic/src/type_resolution.rs  | 56 ++++++++++++++++++-
 .../semantic/src/validation/scope_check.rs    | 33 +++++++++++
 2 files changed, 86 insertions(+), 3 deletions(-)

diff --git a/crates/compiler/semantic/src/type_resolution.rs b/crates/compiler/semantic/src/type_resolution.rs
index 933b460..c9430b3 100644
--- a/crates/compiler/semantic/src/type_resolution.rs
+++ b/crates/compiler/semantic/src/type_resolution.rs
@@ -12,6 +12,8 @@
 //! - `function_semantic_signature`: Resolves function signature information
 //! - `are_types_compatible`: Checks type compatibility
 
+use std::collections::HashSet;
+
 use cairo_m_compiler_parser::parser::{
     BinaryOp, Expression, NamedType, Spanned, TypeExpr as AstTypeExpr, UnaryOp,
 };
@@ -21,7 +23,7 @@ use crate::builtins::{self, BuiltinFn};
 use crate::db::{Crate, SemanticDb, module_name_for_file, module_semantic_index};
 use crate::definition::{DefinitionKind, FunctionDefRef, ParameterDefRef, StructDefRef};
 use crate::place::FileScopeId;
-use crate::semantic_index::{DefinitionId, ExpressionId, Origin};
+use crate::semantic_index::{DefinitionId, DefinitionIndex, ExpressionId, Origin, SemanticIndex};
 use crate::types::{FunctionSignatureId, StructTypeId, TypeData, TypeId};
 
 /// Resolves an AST type expression to a `TypeId`
@@ -878,8 +880,12 @@ pub fn struct_semantic_data<'db>(
     if let DefinitionKind::Struct(StructDefRef { fields_ast, name }) = &definition.kind {
         let mut fields = Vec::new();
         for field_def in fields_ast {
-            let field_type =
-                resolve_ast_type(db, crate_id, file, field_def.1.clone(), definition.scope_id);
+            let field_type = if type_contains_struct(&semantic_index, &field_def.1, def_index) {
+                // Reported by the scope validator
+                TypeId::new(db, TypeData::Error)
+            } else {
+                resolve_ast_type(db, crate_id, file, field_def.1.clone(), definition.scope_id)
+            };
             fields.push((field_def.0.clone(), field_type));
         }
 
@@ -895,6 +901,50 @@ pub fn struct_semantic_data<'db>(
     }
 }
 
+/// Whether a type contains the given struct of the module: names it, or a struct that has a field
+/// whose type contains it, be it in a tuple, in an array or behind a pointer. A field of the struct
+/// itself whose type does so makes the struct recursive. (Modules that import each other are not
+/// analyzed, so the structs in between are all of this module.)
+pub(crate) fn type_contains_struct(
+    semantic_index: &SemanticIndex,
+    type_ast: &Spanned<AstTypeExpr>,
+    target: DefinitionIndex,
+) -> bool {
+    let mut pending = vec![type_ast];
+    let mut seen = HashSet::new();
+    while let Some(ty) = pending.pop() {
+        match ty.value() {
+            AstTypeExpr::Named(name) => {
+                let NamedType::Custom(name) = name.value() else {
+                    continue;
+                };
+                // Structs are top-level items
+                let Some(def_index) = semantic_index
+                    .root_scope()
+                    .and_then(|root| semantic_index.latest_definition_index_by_name(root, name))
+                else {
+                    continue;
+                };
+                if def_index == target {
+                    return true;
+                }
+                if !seen.insert(def_index) {
+                    continue;
+                }
+                if let Some(DefinitionKind::Struct(struct_ref)) =
+                    semantic_index.definition(def_index).map(|d| &d.kind)
+                {
+                    pending.extend(struct_ref.fields_ast.iter().map(|(_, ty)| ty));
+                }
+            }
+            AstTypeExpr::Pointer(inner) => pending.push(inner),
+            AstTypeExpr::Tuple(elements) => pending.extend(elements),
+            AstTypeExpr::FixedArray { element_type, .. } => pending.push(element_type),
+        }
+    }
+    false
+}
+
 /// Retrieves the semantic signature for a function definition
 #[salsa::tracked]
 pub fn function_semantic_signature<'db>(
diff --git a/crates/compiler/semantic/src/validation/scope_check.rs b/crates/compiler/semantic/src/validation/scope_check.rs
index 61369e5..0423740 100644
--- a/crates/compiler/semantic/src/validation/scope_check.rs
+++ b/crates/compiler/semantic/src/validation/scope_check.rs
@@ -27,6 +27,7 @@ use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSink};
 use crate::builtins::is_builtin_function_name;
 use crate::db::{Crate, SemanticDb, module_semantic_index};
 use crate::definition::DefinitionKind;
+use crate::type_resolution::type_contains_struct;
 use crate::validation::Validator;
 use crate::{File, SemanticIndex};
 
@@ -49,6 +50,9 @@ impl Validator for ScopeValidator {
         // Check for undeclared variables globally for this module
         self.check_undeclared_variables_global(index, file, db, crate_id, sink);
 
+        // Check that no struct contains itself
+        self.check_recursive_structs(index, file, db, sink);
+
         // Check import validity - ensure imported items actually exist in target modules
         self.check_import_validity(index, file, db, crate_id, sink);
 
@@ -238,6 +242,35 @@ impl ScopeValidator {
         }
     }
 
+    /// Check for structs with a field whose type contains the struct itself
+    fn check_recursive_structs(
+        &self,
+        index: &SemanticIndex,
+        file: File,
+        db: &dyn SemanticDb,
+        sink: &dyn DiagnosticSink,
+    ) {
+        for (def_idx, definition) in index.all_definitions() {
+            let DefinitionKind::Struct(struct_ref) = &definition.kind else {
+                continue;
+            };
+            for (field, type_ast) in &struct_ref.fields_ast {
+                if type_contains_struct(index, type_ast, def_idx) {
+                    sink.push(
+                        Diagnostic::error(
+                            DiagnosticCode::InvalidTypeDefinition,
+                            format!(
+                                "Recursive struct '{}': the type of field '{field}' contains it",
+                                definition.name
+                            ),
+                        )
+                        .with_location(file.file_path(db).to_string(), type_ast.span()),
+                    );
+                }
+            }
+        }
+    }
+
     /// Whether a definition is a struct, directly or through imports. An import that does not
     /// resolve is reported as such, not here.
     fn may_name_a_type(
-- 
2.43.0


From 90475a6261137a848e0255ecb2390cff37da92ec Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:53:50 +0000
Subject: [PATCH 59/63] fix: a type named after what is being declared is
 undeclared

---
 crates/compiler/semantic/src/validation/scope_check.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/compiler/semantic/src/validation/scope_check.rs b/crates/compiler/semantic/src/validation/scope_check.rs
index 0423740..0eff577 100644
--- a/crates/compiler/semantic/src/validation/scope_check.rs
+++ b/crates/compiler/semantic/src/validation/scope_check.rs
@@ -230,7 +230,9 @@ impl ScopeValidator {
                         usage.scope_id,
                         usage.span,
                     )
-                    .is_none()
+                    .is_none_or(|(_, definition, _)| {
+                        !Self::may_name_a_type(db, crate_id, &definition)
+                    })
                 {
                     sink.push(Diagnostic::undeclared_type(
                         file.file_path(db).to_string(),
-- 
2.43.0


From 98453ae89e8536c0c0a5d301a84f938ca2777a7f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:03:56 +0000
Subject: [PATCH 60/63] fix: loops whose body always leaves compile without
 optimization

---
 crates/compiler/mir/src/passes.rs             |   6 +-
 .../mir/src/passes/dead_code_elimination.rs   | 143 +++++++++++-------
 2 files changed, 89 insertions(+), 60 deletions(-)

diff --git a/crates/compiler/mir/src/passes.rs b/crates/compiler/mir/src/passes.rs
index db747e2..158b00d 100644
--- a/crates/compiler/mir/src/passes.rs
+++ b/crates/compiler/mir/src/passes.rs
@@ -38,7 +38,7 @@ pub mod fuse_cmp;
 use fuse_cmp::FuseCmpBranch;
 
 pub mod dead_code_elimination;
-use dead_code_elimination::DeadCodeElimination;
+use dead_code_elimination::{DeadCodeElimination, UnreachableBlockElimination};
 
 pub mod sroa;
 use sroa::ScalarReplacementOfAggregates;
@@ -79,7 +79,9 @@ impl PassManager {
     }
 
     pub fn no_opt_pipeline() -> Self {
-        Self::new().add_pass(PhiElimination::new())
+        Self::new()
+            .add_pass(UnreachableBlockElimination::new())
+            .add_pass(PhiElimination::new())
     }
 
     /// Create a standard optimization pipeline (default)
diff --git a/crates/compiler/mir/src/passes/dead_code_elimination.rs b/crates/compiler/mir/src/passes/dead_code_elimination.rs
index 0f70dac..ca4dcf3 100644
--- a/crates/compiler/mir/src/passes/dead_code_elimination.rs
+++ b/crates/compiler/mir/src/passes/dead_code_elimination.rs
@@ -121,76 +121,81 @@ impl DeadCodeElimination {
 
         changed
     }
-}
 
-impl MirPass for DeadCodeElimination {
-    fn run(&mut self, function: &mut MirFunction) -> bool {
+    /// Remove the blocks that cannot be reached from the entry, and what the phis of the others
+    /// take from them. Returns true if there were any.
+    fn remove_unreachable_blocks(function: &mut MirFunction) -> bool {
         // 1) Identify unreachable blocks
         let unreachable_vec = function.unreachable_blocks();
-        #[allow(clippy::useless_let_if_seq)]
-        let mut modified = false;
-        if !unreachable_vec.is_empty() {
-            let unreachable: HashSet<BasicBlockId> = unreachable_vec.into_iter().collect();
-
-            // 2) Build a new compact `IndexVec` containing only reachable blocks.
-            //    Keep an old->new block ID mapping as we rebuild.
-            let old_blocks = std::mem::take(&mut function.basic_blocks);
-            let mut new_blocks: IndexVec<BasicBlockId, _> = IndexVec::new();
-            let mut old_to_new: HashMap<BasicBlockId, BasicBlockId> = HashMap::new();
-
-            for (old_id, block) in old_blocks.into_iter_enumerated() {
-                if unreachable.contains(&old_id) {
-                    continue;
-                }
-                let new_id = BasicBlockId::new(new_blocks.len());
-                old_to_new.insert(old_id, new_id);
-                new_blocks.push(block);
+        if unreachable_vec.is_empty() {
+            return false;
+        }
+        let unreachable: HashSet<BasicBlockId> = unreachable_vec.into_iter().collect();
+
+        // 2) Build a new compact `IndexVec` containing only reachable blocks.
+        //    Keep an old->new block ID mapping as we rebuild.
+        let old_blocks = std::mem::take(&mut function.basic_blocks);
+        let mut new_blocks: IndexVec<BasicBlockId, _> = IndexVec::new();
+        let mut old_to_new: HashMap<BasicBlockId, BasicBlockId> = HashMap::new();
+
+        for (old_id, block) in old_blocks.into_iter_enumerated() {
+            if unreachable.contains(&old_id) {
+                continue;
             }
+            let new_id = BasicBlockId::new(new_blocks.len());
+            old_to_new.insert(old_id, new_id);
+            new_blocks.push(block);
+        }
 
-            // Sanity: the entry block must be reachable.
-            let mapped_entry = *old_to_new
-                .get(&function.entry_block)
-                .expect("Entry block was marked unreachable during DCE");
-
-            // 3) Remap all block targets inside terminators, predecessor lists and phis
-            //    for the kept blocks.
-            let ids: Vec<BasicBlockId> = new_blocks.indices().collect();
-            for bid in ids {
-                if let Some(block) = new_blocks.get_mut(bid) {
-                    let new_term = Self::remap_terminator(block.terminator.clone(), &old_to_new);
-                    block.terminator = new_term;
-                    block.preds = block
-                        .preds
-                        .iter()
-                        .filter_map(|pred| old_to_new.get(pred).copied())
-                        .collect();
-                    for phi in &mut block.instructions {
-                        if let crate::InstructionKind::Phi { sources, .. } = &mut phi.kind {
-                            *sources = std::mem::take(sources)
-                                .into_iter()
-                                .filter_map(|(pred, value)| {
-                                    old_to_new.get(&pred).map(|&pred| (pred, value))
-                                })
-                                .collect();
-                        }
+        // Sanity: the entry block must be reachable.
+        let mapped_entry = *old_to_new
+            .get(&function.entry_block)
+            .expect("Entry block was marked unreachable during DCE");
+
+        // 3) Remap all block targets inside terminators, predecessor lists and phis
+        //    for the kept blocks.
+        let ids: Vec<BasicBlockId> = new_blocks.indices().collect();
+        for bid in ids {
+            if let Some(block) = new_blocks.get_mut(bid) {
+                let new_term = Self::remap_terminator(block.terminator.clone(), &old_to_new);
+                block.terminator = new_term;
+                block.preds = block
+                    .preds
+                    .iter()
+                    .filter_map(|pred| old_to_new.get(pred).copied())
+                    .collect();
+                for phi in &mut block.instructions {
+                    if let crate::InstructionKind::Phi { sources, .. } = &mut phi.kind {
+                        *sources = std::mem::take(sources)
+                            .into_iter()
+                            .filter_map(|(pred, value)| {
+                                old_to_new.get(&pred).map(|&pred| (pred, value))
+                            })
+                            .collect();
                     }
                 }
             }
+        }
 
-            // 4) Swap in the compacted blocks and update the entry block.
-            function.basic_blocks = new_blocks;
-            function.entry_block = mapped_entry;
+        // 4) Swap in the compacted blocks and update the entry block.
+        function.basic_blocks = new_blocks;
+        function.entry_block = mapped_entry;
 
-            // 5) Ensure any internal CFG metadata is consistent by re-applying
-            //    terminators via the utility that updates edge tables.
-            let ids: Vec<BasicBlockId> = function.basic_blocks.indices().collect();
-            for bid in ids {
-                if let Some(block) = function.basic_blocks.get(bid) {
-                    function.set_terminator_with_edges(bid, block.terminator.clone());
-                }
+        // 5) Ensure any internal CFG metadata is consistent by re-applying
+        //    terminators via the utility that updates edge tables.
+        let ids: Vec<BasicBlockId> = function.basic_blocks.indices().collect();
+        for bid in ids {
+            if let Some(block) = function.basic_blocks.get(bid) {
+                function.set_terminator_with_edges(bid, block.terminator.clone());
             }
-            modified = true;
         }
+        true
+    }
+}
+
+impl MirPass for DeadCodeElimination {
+    fn run(&mut self, function: &mut MirFunction) -> bool {
+        let mut modified = Self::remove_unreachable_blocks(function);
 
         // 6) Remove dead pure instructions to a fixed point
         if self.remove_dead_instructions(function) {
@@ -205,6 +210,28 @@ impl MirPass for DeadCodeElimination {
     }
 }
 
+/// The first half of [`DeadCodeElimination`] alone, for pipelines that do not optimize: blocks that
+/// nothing leads to may read values that no block defines.
+#[derive(Debug, Default)]
+pub struct UnreachableBlockElimination;
+
+impl UnreachableBlockElimination {
+    /// Create a new unreachable block elimination pass
+    pub const fn new() -> Self {
+        Self
+    }
+}
+
+impl MirPass for UnreachableBlockElimination {
+    fn run(&mut self, function: &mut MirFunction) -> bool {
+        DeadCodeElimination::remove_unreachable_blocks(function)
+    }
+
+    fn name(&self) -> &'static str {
+        "UnreachableBlockElimination"
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From a7ec95a679abf9ca7e8b4441a424c6665057319b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:05:14 +0000
Subject: [PATCH 61/63] fix: constant indices of pointers are felts and may
 count backwards

---
 crates/compiler/codegen/src/generator.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/compiler/codegen/src/generator.rs b/crates/compiler/codegen/src/generator.rs
index f782913..4ba9b06 100644
--- a/crates/compiler/codegen/src/generator.rs
+++ b/crates/compiler/codegen/src/generator.rs
@@ -869,7 +869,7 @@ impl CodeGenerator {
                             let stride = DataLayout::memory_size_of(&elem_ty) as i32;
                             match idx {
                                 Value::Literal(Literal::Integer(i)) => {
-                                    imm_off += (*i as i32) * stride;
+                                    imm_off += element_offset(*i, stride);
                                 }
                                 Value::Operand(idx_id) => {
                                     let idx_layout = builder
@@ -1055,7 +1055,7 @@ impl CodeGenerator {
                             let stride = DataLayout::memory_size_of(&elem_ty) as i32;
                             match idx {
                                 Value::Literal(Literal::Integer(i)) => {
-                                    imm_off += (*i as i32) * stride;
+                                    imm_off += element_offset(*i, stride);
                                 }
                                 Value::Operand(idx_id) => {
                                     let idx_layout = builder
@@ -2350,6 +2350,14 @@ mod tests_rodata {
     // Constant-index folding is handled by MIR; no codegen folding test here.
 }
 
+/// The offset of an element from the first, in cells. Indices are felts: those of the upper half
+/// count down from zero.
+fn element_offset(index: u32, stride: i32) -> i32 {
+    const P: i64 = (1 << 31) - 1;
+    let offset = (i64::from(index) * i64::from(stride)) % P;
+    (if offset > P / 2 { offset - P } else { offset }) as i32
+}
+
 /// Convert MIR types to ABI types for program metadata
 fn abi_type_from_mir(ty: &MirType) -> CodegenResult<AbiType> {
     let out = match ty {
-- 
2.43.0


From 6cfec3b92d83639f79333bc65c5c59a941978e8b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:32:54 +0000
Subject: [PATCH 62/63] fix: room for array arguments follows the values that
 are written

Contents of lists given for pointers inside arrays were not counted, so that the frame overwrote
them, and an array of the wrong length panicked instead of being rejected.
---
 crates/runner/src/lib.rs | 71 ++++++++++------------------------------
 1 file changed, 18 insertions(+), 53 deletions(-)

diff --git a/crates/runner/src/lib.rs b/crates/runner/src/lib.rs
index 0341d52..ea0222e 100644
--- a/crates/runner/src/lib.rs
+++ b/crates/runner/src/lib.rs
@@ -62,73 +62,38 @@ pub struct RunnerOutput {
     pub public_address_ranges: PublicAddressRanges,
 }
 
-/// Calculates the total number of memory cells needed for materializing array data
-/// when passing arguments to a function.
+/// Calculates the number of memory cells needed for materializing the array data of an argument.
 ///
-/// Arrays are passed as pointers in the call ABI, but their contents must be
-/// materialized in memory. This function recursively calculates the total space needed
-/// for all arrays (including nested arrays within tuples/structs).
+/// Arrays, and lists given for pointers, are passed as pointers in the call ABI, but their contents
+/// must be materialized in memory. This function follows the value, so that everything
+/// [`encode_value_for_call`] writes (including the contents of nested arrays and pointers) is counted.
+/// Values that do not have the shape of their type are rejected during encoding.
 ///
 /// ## Returns
 /// Number of M31 cells needed for materialized array contents
-fn calculate_array_materialization_size(ty: &AbiType) -> usize {
-    match ty {
-        AbiType::FixedSizeArray { element, size } => {
-            let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            (*size as usize) * (element_call_size + nested_array_size)
-        }
-        AbiType::Tuple(elements) => elements
-            .iter()
-            .map(calculate_array_materialization_size)
-            .sum(),
-        AbiType::Struct { fields, .. } => fields
+fn calculate_array_materialization_size(ty: &AbiType, val: &InputValue) -> usize {
+    match (ty, val) {
+        (
+            AbiType::FixedSizeArray { element, .. } | AbiType::Pointer { element, .. },
+            InputValue::List(values),
+        ) => values
             .iter()
-            .map(|(_, field_type)| calculate_array_materialization_size(field_type))
+            .map(|v| {
+                AbiType::call_slot_size(element) + calculate_array_materialization_size(element, v)
+            })
             .sum(),
-        // Scalar types don't require array materialization
-        _ => 0,
-    }
-}
-
-/// Value-aware materialization size calculator for arguments.
-/// Handles dynamic pointers by using the provided values to determine the
-/// number of cells to allocate inline.
-fn calculate_array_materialization_size_with_value(ty: &AbiType, val: &InputValue) -> usize {
-    match (ty, val) {
-        // Static arrays: compute based on declared size and recurse into element type for nested arrays
-        (AbiType::FixedSizeArray { element, size }, InputValue::List(values)) => {
-            assert_eq!(*size, values.len() as u32);
-            let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            (*size as usize) * (element_call_size + nested_array_size)
-        }
-        // Dynamic pointer: count elements and account for nested arrays in element
-        (AbiType::Pointer { element, len }, InputValue::List(values)) => {
-            let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            let count = len.unwrap_or(values.len() as u32) as usize;
-            count * (element_call_size + nested_array_size)
-        }
-        // Numeric value for pointer means a single element
-        (AbiType::Pointer { element, len }, InputValue::Number(_)) => {
-            let element_call_size = AbiType::call_slot_size(element);
-            let nested_array_size = calculate_array_materialization_size(element);
-            let count = len.unwrap_or(1) as usize;
-            count * (element_call_size + nested_array_size)
-        }
         // Aggregates: recurse element-wise
         (AbiType::Tuple(types), InputValue::List(values)) => types
             .iter()
             .zip(values.iter())
-            .map(|(t, v)| calculate_array_materialization_size_with_value(t, v))
+            .map(|(t, v)| calculate_array_materialization_size(t, v))
             .sum(),
         (AbiType::Struct { fields, .. }, InputValue::Struct(values)) => fields
             .iter()
             .zip(values.iter())
-            .map(|((_, t), v)| calculate_array_materialization_size_with_value(t, v))
+            .map(|((_, t), v)| calculate_array_materialization_size(t, v))
             .sum(),
-        // No materialization for numeric pointers (raw addresses) or scalars
+        // Scalars don't require array materialization
         _ => 0,
     }
 }
@@ -419,7 +384,7 @@ pub fn run_cairo_program(
         .params
         .iter()
         .zip(args.iter())
-        .map(|(param, arg)| calculate_array_materialization_size_with_value(&param.ty, arg))
+        .map(|(param, arg)| calculate_array_materialization_size(&param.ty, arg))
         .sum();
 
     let return_slot_count: usize = entrypoint_info
-- 
2.43.0


From cfd4b539cd42c37e8aee28cf8078971ada20ccf4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:33:23 +0000
Subject: [PATCH 63/63] fix: public ranges of arguments and results start
 behind the arrays

With array arguments the public input was the contents of the arrays and the public output what
the function was called with.
---
 crates/runner/src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/runner/src/lib.rs b/crates/runner/src/lib.rs
index ea0222e..d602852 100644
--- a/crates/runner/src/lib.rs
+++ b/crates/runner/src/lib.rs
@@ -431,12 +431,15 @@ pub fn run_cairo_program(
     let decoded_returns =
         decode_all_return_values(&entrypoint_info.returns, &raw_return_frame, &vm)?;
 
-    // Create public address ranges for proof generation
-    let public_address_ranges = PublicAddressRanges::new(
-        vm.program_length.0,
-        encoded_arguments.len(),
-        return_slot_count,
-    );
+    // Create public address ranges for proof generation: arguments and return values lie behind
+    // the materialized arrays
+    let input_start = vm.program_length.0 + array_materialization_size as u32;
+    let output_start = input_start + encoded_arguments.len() as u32;
+    let public_address_ranges = PublicAddressRanges {
+        program: 0..vm.program_length.0,
+        input: input_start..output_start,
+        output: output_start..output_start + return_slot_count as u32,
+    };
 
     Ok(RunnerOutput {
         return_values: decoded_returns,
-- 
2.43.0

