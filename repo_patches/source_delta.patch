From 5693531288ad7aebbe3416af781cda34a75d3f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:23 +0000
Subject: [PATCH 01/47] fix: constant folding no longer overflows when negating
 INT_MIN

---
 crates/decy-core/src/optimize.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index efcca84..4176ca6 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -129,7 +129,10 @@ fn fold_constants_expr(expr: HirExpression) -> HirExpression {
         HirExpression::UnaryOp { op, operand } => {
             let operand = fold_constants_expr(*operand);
             if let (decy_hir::UnaryOperator::Minus, HirExpression::IntLiteral(v)) = (op, &operand) {
-                return HirExpression::IntLiteral(-v);
+                // `-INT_MIN` is not representable: leave it unfolded
+                if let Some(negated) = v.checked_neg() {
+                    return HirExpression::IntLiteral(negated);
+                }
             }
             HirExpression::UnaryOp { op, operand: Box::new(operand) }
         }
-- 
2.43.0


From b68cabe6c2aa647e5175b6990805fa5dde2f9c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:50 +0000
Subject: [PATCH 02/47] fix: dead branch removal keeps the scope of a taken
 branch that declares variables

---
 crates/decy-core/src/optimize.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index 4176ca6..5f6f3b0 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -197,7 +197,16 @@ fn remove_dead_branches(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
     for stmt in stmts {
         match stmt {
             HirStatement::If { condition, then_block, else_block } => {
-                if let Some(always_true) = is_constant_truthy(&condition) {
+                // A taken branch that declares variables is a scope of its own: splicing it into
+                // the enclosing block would let its variables shadow the outer ones.
+                let taken_branch_is_scope = match is_constant_truthy(&condition) {
+                    Some(true) => declares_variable(&then_block),
+                    Some(false) => else_block.as_deref().is_some_and(declares_variable),
+                    None => false,
+                };
+                if let (Some(always_true), false) =
+                    (is_constant_truthy(&condition), taken_branch_is_scope)
+                {
                     if always_true {
                         // if(1) { body } → body
                         result.extend(
@@ -211,7 +220,7 @@ fn remove_dead_branches(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
                     }
                     // if(0) { ... } with no else → removed entirely
                 } else {
-                    // Non-constant condition: recurse into both branches
+                    // Non-constant condition (or a scope): recurse into both branches
                     result.push(HirStatement::If {
                         condition,
                         then_block: remove_dead_branches(then_block),
@@ -235,6 +244,11 @@ fn remove_dead_branches(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
     result
 }
 
+/// Check whether a block declares a variable in its own scope.
+fn declares_variable(stmts: &[HirStatement]) -> bool {
+    stmts.iter().any(|s| matches!(s, HirStatement::VariableDeclaration { .. }))
+}
+
 /// Check if an expression is a constant truthy/falsy value.
 fn is_constant_truthy(expr: &HirExpression) -> Option<bool> {
     match expr {
-- 
2.43.0


From 2f53e61bf4e71c5b3e6f3b87b9238578bf771d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:05 +0000
Subject: [PATCH 03/47] fix: temporary elimination keeps temporaries whose
 declaration converts the value

---
 crates/decy-core/src/optimize.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index 5f6f3b0..de2514f 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -29,9 +29,7 @@
 //! assert_eq!(optimized.body().len(), 1);
 //! ```
 
-#[cfg(test)]
-use decy_hir::HirType;
-use decy_hir::{BinaryOperator, HirExpression, HirFunction, HirStatement};
+use decy_hir::{BinaryOperator, HirExpression, HirFunction, HirStatement, HirType};
 
 /// Maximum number of fixed-point iterations.
 const MAX_ITERATIONS: usize = 3;
@@ -51,7 +49,7 @@ pub fn optimize_function(func: &HirFunction) -> HirFunction {
 
         body = body.into_iter().map(fold_constants_stmt).collect();
         body = remove_dead_branches(body);
-        body = eliminate_temporaries(body);
+        body = eliminate_temporaries_returning(body, func.return_type());
 
         if body != prev {
             changed = true;
@@ -267,8 +265,17 @@ fn is_constant_truthy(expr: &HirExpression) -> Option<bool> {
 /// Pattern: `let tmp = expr; return tmp;` → `return expr;`
 ///
 /// Conservative: does NOT inline malloc/calloc/realloc results since
-/// downstream passes (box_transform) need the variable assignment pattern.
+/// downstream passes (box_transform) need the variable assignment pattern, and does NOT inline
+/// a temporary whose type differs from the return type: its declaration converts the value.
+#[cfg(test)]
 fn eliminate_temporaries(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
+    eliminate_temporaries_returning(stmts, &HirType::Int)
+}
+
+fn eliminate_temporaries_returning(
+    stmts: Vec<HirStatement>,
+    return_type: &HirType,
+) -> Vec<HirStatement> {
     if stmts.len() < 2 {
         return stmts;
     }
@@ -285,11 +292,12 @@ fn eliminate_temporaries(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
         // Check for pattern: let tmp = expr; return tmp;
         if i + 1 < stmts.len() {
             if let (
-                HirStatement::VariableDeclaration { name, initializer: Some(init_expr), .. },
+                HirStatement::VariableDeclaration { name, var_type, initializer: Some(init_expr) },
                 HirStatement::Return(Some(HirExpression::Variable(ret_var))),
             ) = (&stmts[i], &stmts[i + 1])
             {
                 if name == ret_var
+                    && var_type == return_type
                     && count_uses(name, &stmts[i + 2..]) == 0
                     && !is_allocation_expr(init_expr)
                 {
-- 
2.43.0


From 5156669e14b36e8412e29c35e0d0cf85dacbb10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:01 +0000
Subject: [PATCH 04/47] fix: C++ operator overloads keep their operator in the
 IR

operator!= was lowered to ==, <=, > and >= to <, and << and >> to +,
so the generated impl was for a different operator than the source's.
---
 crates/decy-hir/src/lib.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/crates/decy-hir/src/lib.rs b/crates/decy-hir/src/lib.rs
index 7a345ef..ca019fa 100644
--- a/crates/decy-hir/src/lib.rs
+++ b/crates/decy-hir/src/lib.rs
@@ -198,12 +198,22 @@ pub enum HirCxxOperatorKind {
     NotEqual,
     /// operator< -> impl PartialOrd
     Less,
+    /// operator<=
+    LessEqual,
+    /// operator>
+    Greater,
+    /// operator>=
+    GreaterEqual,
     /// operator[] -> impl Index
     Index,
     /// operator+= -> impl AddAssign
     AddAssign,
     /// operator-= -> impl SubAssign
     SubAssign,
+    /// operator<<
+    Shl,
+    /// operator>>
+    Shr,
 }
 
 /// Represents a C++ method in HIR (DECY-200).
@@ -310,14 +320,17 @@ impl HirClass {
                         P::Mul => HirCxxOperatorKind::Mul,
                         P::Div => HirCxxOperatorKind::Div,
                         P::Rem => HirCxxOperatorKind::Rem,
-                        P::Equal | P::NotEqual => HirCxxOperatorKind::Equal,
-                        P::Less | P::LessEqual | P::Greater | P::GreaterEqual => {
-                            HirCxxOperatorKind::Less
-                        }
+                        P::Equal => HirCxxOperatorKind::Equal,
+                        P::NotEqual => HirCxxOperatorKind::NotEqual,
+                        P::Less => HirCxxOperatorKind::Less,
+                        P::LessEqual => HirCxxOperatorKind::LessEqual,
+                        P::Greater => HirCxxOperatorKind::Greater,
+                        P::GreaterEqual => HirCxxOperatorKind::GreaterEqual,
                         P::Index => HirCxxOperatorKind::Index,
                         P::AddAssign => HirCxxOperatorKind::AddAssign,
                         P::SubAssign => HirCxxOperatorKind::SubAssign,
-                        P::Shl | P::Shr => HirCxxOperatorKind::Add, // fallback
+                        P::Shl => HirCxxOperatorKind::Shl,
+                        P::Shr => HirCxxOperatorKind::Shr,
                     }
                 });
                 method
-- 
2.43.0


From c454fb3ec78cb9101de5f03d510d87df0f7bb5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:47 +0000
Subject: [PATCH 05/47] fix: a cached translation is stale once a dependency is
 deleted or unreadable

The cache treated a dependency it could no longer read as unchanged, and
silently dropped dependencies it could not read when the entry was made.
---
 crates/decy-core/src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index c2f0317..57629fa 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -428,8 +428,15 @@ impl TranspilationCache {
         // Compute dependency hashes
         let mut dependency_hashes = HashMap::new();
         for dep_path in &transpiled.dependencies {
-            if let Ok(dep_hash) = self.compute_hash(dep_path) {
-                dependency_hashes.insert(dep_path.clone(), dep_hash);
+            match self.compute_hash(dep_path) {
+                Ok(dep_hash) => {
+                    dependency_hashes.insert(dep_path.clone(), dep_hash);
+                }
+                Err(_) => {
+                    // The dependency could not be checked later: do not cache
+                    self.entries.remove(path);
+                    return;
+                }
             }
         }
 
@@ -456,8 +463,10 @@ impl TranspilationCache {
 
         // Check if any dependency has changed
         for (dep_path, cached_hash) in &entry.dependency_hashes {
-            if let Ok(current_dep_hash) = self.compute_hash(dep_path) {
-                if &current_dep_hash != cached_hash {
+            match self.compute_hash(dep_path) {
+                Ok(current_dep_hash) if &current_dep_hash == cached_hash => {}
+                // Changed, deleted or unreadable
+                _ => {
                     self.misses += 1;
                     return None;
                 }
-- 
2.43.0


From b9ee58fd1dff6aaaf743bd085dc347fccec44d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:47 +0000
Subject: [PATCH 06/47] fix: cache statistics count lookups of files that are
 not cached as misses

---
 crates/decy-core/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 57629fa..01135d1 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -452,10 +452,16 @@ impl TranspilationCache {
     /// - File content has changed
     /// - Any dependency has changed
     pub fn get(&mut self, path: &Path) -> Option<&TranspiledFile> {
-        let entry = self.entries.get(&path.to_path_buf())?;
+        let Some(entry) = self.entries.get(&path.to_path_buf()) else {
+            self.misses += 1;
+            return None;
+        };
 
         // Check if file hash matches
-        let current_hash = self.compute_hash(path).ok()?;
+        let Ok(current_hash) = self.compute_hash(path) else {
+            self.misses += 1;
+            return None;
+        };
         if current_hash != entry.hash {
             self.misses += 1;
             return None;
-- 
2.43.0


From 463a36c18fc901f2b1e090d3465a8dc07856b63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:27 +0000
Subject: [PATCH 07/47] fix: an include in angle brackets is recognised when
 quotes follow it on the line

---
 crates/decy-core/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 01135d1..f4a72ab 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -291,8 +291,8 @@ impl DependencyGraph {
             let trimmed = line.trim();
             if trimmed.starts_with("#include") {
                 // Extract filename from #include "file.h" or #include <file.h>
-                if let Some(start) = trimmed.find('"').or_else(|| trimmed.find('<')) {
-                    let end_char = if trimmed.chars().nth(start) == Some('"') { '"' } else { '>' };
+                if let Some(start) = trimmed.find(['"', '<']) {
+                    let end_char = if trimmed[start..].starts_with('"') { '"' } else { '>' };
                     if let Some(end) = trimmed[start + 1..].find(end_char) {
                         let filename = &trimmed[start + 1..start + 1 + end];
                         includes.push(filename.to_string());
@@ -575,7 +575,9 @@ fn preprocess_includes(
         // Check for #include directive
         if trimmed.starts_with("#include") {
             // Extract filename from #include "file.h" or #include <file.h>
-            let (filename, is_system) = if let Some(start) = trimmed.find('"') {
+            let delimiter = trimmed.find(['"', '<']);
+            let quoted = delimiter.filter(|&start| trimmed[start..].starts_with('"'));
+            let (filename, is_system) = if let Some(start) = quoted {
                 if let Some(end) = trimmed[start + 1..].find('"') {
                     let filename = &trimmed[start + 1..start + 1 + end];
                     (filename, false)
@@ -585,7 +587,7 @@ fn preprocess_includes(
                     result.push('\n');
                     continue;
                 }
-            } else if let Some(start) = trimmed.find('<') {
+            } else if let Some(start) = delimiter {
                 if let Some(end) = trimmed[start + 1..].find('>') {
                     let filename = &trimmed[start + 1..start + 1 + end];
                     (filename, true)
@@ -1662,7 +1664,8 @@ fn extract_dependencies(source_path: &Path, c_code: &str) -> Result<Vec<PathBuf>
         let trimmed = line.trim();
         if trimmed.starts_with("#include") {
             // Extract header filename from #include "header.h" or #include <header.h>
-            if let Some(start) = trimmed.find('"') {
+            let delimiter = trimmed.find(['"', '<']);
+            if let Some(start) = delimiter.filter(|&start| trimmed[start..].starts_with('"')) {
                 if let Some(end) = trimmed[start + 1..].find('"') {
                     let header_name = &trimmed[start + 1..start + 1 + end];
                     let header_path = source_dir.join(header_name);
-- 
2.43.0


From e29499b3baed14b25bb86dcaeac4ef3dde465e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:29 +0000
Subject: [PATCH 08/47] fix: every global and function is emitted once, from
 its definition, in a fixed order

---
 crates/decy-core/src/lib.rs | 82 +++++++++++++++----------------------
 1 file changed, 32 insertions(+), 50 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index f4a72ab..bf1c555 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -818,6 +818,30 @@ fn deduplicate_functions(all_hir_functions: Vec<HirFunction>) -> Vec<HirFunction
     funcs
 }
 
+/// Global variables defined by a translation unit, one per name.
+///
+/// Extern declarations without an initializer refer to a definition elsewhere and are left out.
+/// C allows several tentative definitions (`int x; int x = 5;`); the initialized one wins.
+fn global_definitions(
+    variables: &[decy_parser::parser::Variable],
+) -> Vec<&decy_parser::parser::Variable> {
+    let mut definitions: Vec<&decy_parser::parser::Variable> = Vec::new();
+    for variable in variables {
+        if variable.is_extern() && variable.initializer().is_none() {
+            continue;
+        }
+        match definitions.iter().position(|d| d.name() == variable.name()) {
+            Some(index) => {
+                if definitions[index].initializer().is_none() && variable.initializer().is_some() {
+                    definitions[index] = variable;
+                }
+            }
+            None => definitions.push(variable),
+        }
+    }
+    definitions
+}
+
 fn build_slice_func_arg_mappings(
     hir_functions: &[HirFunction],
 ) -> Vec<(String, Vec<(usize, usize)>)> {
@@ -1142,26 +1166,9 @@ pub fn transpile_with_includes(c_code: &str, base_dir: Option<&Path>) -> Result<
 
     // Convert global variables to HIR (DECY-054)
     // DECY-223: Filter out extern references (they refer to existing globals, not new definitions)
-    // Also deduplicate by name (first definition wins)
-    let mut seen_globals: std::collections::HashSet<String> = std::collections::HashSet::new();
-    let hir_variables: Vec<decy_hir::HirStatement> = ast
-        .variables()
-        .iter()
-        .filter(|v| {
-            // Skip extern declarations without initializers (they're references, not definitions)
-            // extern int max; → skip (reference)
-            // int max = 0; → keep (definition)
-            // extern int max = 0; → keep (definition with extern linkage)
-            if v.is_extern() && v.initializer().is_none() {
-                return false;
-            }
-            // Deduplicate by name
-            if seen_globals.contains(v.name()) {
-                return false;
-            }
-            seen_globals.insert(v.name().to_string());
-            true
-        })
+    // Also deduplicate by name (the definition with an initializer wins)
+    let hir_variables: Vec<decy_hir::HirStatement> = global_definitions(ast.variables())
+        .into_iter()
         .map(|v| decy_hir::HirStatement::VariableDeclaration {
             name: v.name().to_string(),
             var_type: decy_hir::HirType::from_ast_type(v.var_type()),
@@ -1349,23 +1356,7 @@ fn process_ast_to_rust(ast: decy_parser::Ast, _base_dir: Option<&Path>) -> Resul
         ast.functions().iter().map(HirFunction::from_ast_function).collect();
 
     // DECY-190: Deduplicate functions
-    let hir_functions: Vec<HirFunction> = {
-        use std::collections::HashMap;
-        let mut func_map: HashMap<String, HirFunction> = HashMap::new();
-
-        for func in all_hir_functions {
-            let name = func.name().to_string();
-            if let Some(existing) = func_map.get(&name) {
-                if func.has_body() && !existing.has_body() {
-                    func_map.insert(name, func);
-                }
-            } else {
-                func_map.insert(name, func);
-            }
-        }
-
-        func_map.into_values().collect()
-    };
+    let hir_functions = deduplicate_functions(all_hir_functions);
 
     // Convert structs to HIR
     let hir_structs: Vec<decy_hir::HirStruct> = ast
@@ -1403,17 +1394,8 @@ fn process_ast_to_rust(ast: decy_parser::Ast, _base_dir: Option<&Path>) -> Resul
         .collect();
 
     // Convert global variables with deduplication
-    let mut seen_globals = std::collections::HashSet::new();
-    let hir_variables: Vec<decy_hir::HirStatement> = ast
-        .variables()
-        .iter()
-        .filter(|v| {
-            if seen_globals.contains(v.name()) {
-                return false;
-            }
-            seen_globals.insert(v.name().to_string());
-            true
-        })
+    let hir_variables: Vec<decy_hir::HirStatement> = global_definitions(ast.variables())
+        .into_iter()
         .map(|v| decy_hir::HirStatement::VariableDeclaration {
             name: v.name().to_string(),
             var_type: decy_hir::HirType::from_ast_type(v.var_type()),
@@ -1577,8 +1559,8 @@ pub fn transpile_with_box_transform(c_code: &str) -> Result<String> {
     let ast = parser.parse(c_code).context("Failed to parse C code")?;
 
     // Step 2: Convert to HIR
-    let hir_functions: Vec<HirFunction> =
-        ast.functions().iter().map(HirFunction::from_ast_function).collect();
+    let hir_functions =
+        deduplicate_functions(ast.functions().iter().map(HirFunction::from_ast_function).collect());
 
     // Step 3: Generate Rust code with Box transformation
     let code_generator = CodeGenerator::new();
-- 
2.43.0


From 8287df24565b4395603fe92b4b39b54cd48d16f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:13 +0000
Subject: [PATCH 09/47] fix: data protected by a lock is tracked through every
 kind of statement and expression

Accesses in nested blocks, loops, switches, field, array and pointer
assignments, ternaries, increments and so on were invisible to the lock
analysis, so an unprotected access there was never reported; and a mutex
locked inside another one's region was itself taken for protected data.
---
 crates/decy-analyzer/src/lock_analysis.rs |  90 ++++++++++++++++--
 crates/decy-verify/src/lock_verify.rs     | 110 +++++++++++++++++++---
 2 files changed, 179 insertions(+), 21 deletions(-)

diff --git a/crates/decy-analyzer/src/lock_analysis.rs b/crates/decy-analyzer/src/lock_analysis.rs
index 11c86e5..86e721e 100644
--- a/crates/decy-analyzer/src/lock_analysis.rs
+++ b/crates/decy-analyzer/src/lock_analysis.rs
@@ -71,8 +71,12 @@ impl LockAnalyzer {
     /// Identifies pthread_mutex_lock/unlock pairs and returns
     /// the code regions they protect.
     pub fn find_lock_regions(&self, func: &HirFunction) -> Vec<LockRegion> {
+        self.find_lock_regions_in(func.body())
+    }
+
+    /// Find all locked regions among the statements of one block.
+    pub fn find_lock_regions_in(&self, body: &[HirStatement]) -> Vec<LockRegion> {
         let mut regions = Vec::new();
-        let body = func.body();
 
         // Track active locks (lock name -> start index)
         let mut active_locks: HashMap<String, usize> = HashMap::new();
@@ -97,6 +101,11 @@ impl LockAnalyzer {
         regions
     }
 
+    /// Check whether a statement is itself a pthread_mutex_lock or pthread_mutex_unlock call.
+    pub fn is_lock_operation(stmt: &HirStatement) -> bool {
+        Self::extract_lock_call(stmt).is_some() || Self::extract_unlock_call(stmt).is_some()
+    }
+
     /// Extract lock name from pthread_mutex_lock call.
     fn extract_lock_call(stmt: &HirStatement) -> Option<String> {
         if let HirStatement::Expression(HirExpression::FunctionCall { function, arguments }) = stmt
@@ -160,7 +169,10 @@ impl LockAnalyzer {
         // Scan statements in the region (excluding lock/unlock calls)
         for idx in (region.start_index + 1)..region.end_index {
             if let Some(stmt) = body.get(idx) {
-                self.collect_accessed_variables(stmt, &mut accessed);
+                // A mutex of another region is not data protected by this one
+                if !Self::is_lock_operation(stmt) {
+                    self.collect_accessed_variables(stmt, &mut accessed);
+                }
             }
         }
 
@@ -206,7 +218,37 @@ impl LockAnalyzer {
                     self.collect_accessed_variables(s, accessed);
                 }
             }
-            HirStatement::Expression(expr) => {
+            HirStatement::For { init, condition, increment, body } => {
+                for s in init {
+                    self.collect_accessed_variables(s, accessed);
+                }
+                if let Some(condition) = condition {
+                    self.collect_variables_from_expr(condition, accessed);
+                }
+                for s in increment {
+                    self.collect_accessed_variables(s, accessed);
+                }
+                for s in body {
+                    self.collect_accessed_variables(s, accessed);
+                }
+            }
+            HirStatement::Switch { condition, cases, default_case } => {
+                self.collect_variables_from_expr(condition, accessed);
+                for case in cases {
+                    if let Some(value) = &case.value {
+                        self.collect_variables_from_expr(value, accessed);
+                    }
+                    for s in &case.body {
+                        self.collect_accessed_variables(s, accessed);
+                    }
+                }
+                if let Some(default_stmts) = default_case {
+                    for s in default_stmts {
+                        self.collect_accessed_variables(s, accessed);
+                    }
+                }
+            }
+            HirStatement::Expression(expr) | HirStatement::Free { pointer: expr } => {
                 self.collect_variables_from_expr(expr, accessed);
             }
             HirStatement::DerefAssignment { target, value } => {
@@ -239,28 +281,56 @@ impl LockAnalyzer {
                 self.collect_variables_from_expr(left, accessed);
                 self.collect_variables_from_expr(right, accessed);
             }
-            HirExpression::UnaryOp { operand, .. } => {
+            HirExpression::UnaryOp { operand, .. }
+            | HirExpression::PostIncrement { operand }
+            | HirExpression::PreIncrement { operand }
+            | HirExpression::PostDecrement { operand }
+            | HirExpression::PreDecrement { operand }
+            | HirExpression::CxxDelete { operand } => {
                 self.collect_variables_from_expr(operand, accessed);
             }
-            HirExpression::FunctionCall { arguments, .. } => {
+            HirExpression::FunctionCall { arguments, .. }
+            | HirExpression::CompoundLiteral { initializers: arguments, .. }
+            | HirExpression::CxxNew { arguments, .. } => {
                 for arg in arguments {
                     self.collect_variables_from_expr(arg, accessed);
                 }
             }
-            HirExpression::AddressOf(inner) | HirExpression::Dereference(inner) => {
+            HirExpression::StringMethodCall { receiver, arguments, .. } => {
+                self.collect_variables_from_expr(receiver, accessed);
+                for arg in arguments {
+                    self.collect_variables_from_expr(arg, accessed);
+                }
+            }
+            HirExpression::AddressOf(inner)
+            | HirExpression::Dereference(inner)
+            | HirExpression::IsNotNull(inner) => {
                 self.collect_variables_from_expr(inner, accessed);
             }
-            HirExpression::ArrayIndex { array, index } => {
+            HirExpression::ArrayIndex { array, index }
+            | HirExpression::SliceIndex { slice: array, index, .. } => {
                 self.collect_variables_from_expr(array, accessed);
                 self.collect_variables_from_expr(index, accessed);
             }
-            HirExpression::FieldAccess { object, .. } => {
+            HirExpression::FieldAccess { object, .. }
+            | HirExpression::PointerFieldAccess { pointer: object, .. } => {
                 self.collect_variables_from_expr(object, accessed);
             }
-            HirExpression::Cast { expr, .. } => {
+            HirExpression::Cast { expr, .. }
+            | HirExpression::Calloc { count: expr, .. }
+            | HirExpression::Malloc { size: expr } => {
                 self.collect_variables_from_expr(expr, accessed);
             }
-            // Literals and other expressions don't reference variables
+            HirExpression::Realloc { pointer, new_size } => {
+                self.collect_variables_from_expr(pointer, accessed);
+                self.collect_variables_from_expr(new_size, accessed);
+            }
+            HirExpression::Ternary { condition, then_expr, else_expr } => {
+                self.collect_variables_from_expr(condition, accessed);
+                self.collect_variables_from_expr(then_expr, accessed);
+                self.collect_variables_from_expr(else_expr, accessed);
+            }
+            // Literals and sizeof don't reference variables
             _ => {}
         }
     }
diff --git a/crates/decy-verify/src/lock_verify.rs b/crates/decy-verify/src/lock_verify.rs
index d69a7af..ee3debc 100644
--- a/crates/decy-verify/src/lock_verify.rs
+++ b/crates/decy-verify/src/lock_verify.rs
@@ -143,8 +143,10 @@ impl<'a> LockDisciplineChecker<'a> {
         // 3. Check all statements outside locked regions
         let body = func.body();
         for (idx, stmt) in body.iter().enumerate() {
-            // Skip if this statement is inside a locked region
-            if self.is_inside_any_region(idx, &lock_regions) {
+            // Skip if this statement is inside a locked region, or locks or unlocks itself
+            if self.is_inside_any_region(idx, &lock_regions)
+                || LockAnalyzer::is_lock_operation(stmt)
+            {
                 continue;
             }
 
@@ -185,11 +187,51 @@ impl<'a> LockDisciplineChecker<'a> {
             HirStatement::VariableDeclaration { initializer: Some(init), .. } => {
                 Self::collect_vars_from_expr(init, &mut vars);
             }
-            HirStatement::Expression(expr) => {
+            HirStatement::Expression(expr)
+            | HirStatement::Return(Some(expr))
+            | HirStatement::Free { pointer: expr } => {
                 Self::collect_vars_from_expr(expr, &mut vars);
             }
-            HirStatement::Return(Some(expr)) => {
-                Self::collect_vars_from_expr(expr, &mut vars);
+            HirStatement::DerefAssignment { target, value }
+            | HirStatement::FieldAssignment { object: target, value, .. } => {
+                Self::collect_vars_from_expr(target, &mut vars);
+                Self::collect_vars_from_expr(value, &mut vars);
+            }
+            HirStatement::ArrayIndexAssignment { array, index, value } => {
+                Self::collect_vars_from_expr(array, &mut vars);
+                Self::collect_vars_from_expr(index, &mut vars);
+                Self::collect_vars_from_expr(value, &mut vars);
+            }
+            HirStatement::If { condition, then_block, else_block } => {
+                Self::collect_vars_from_expr(condition, &mut vars);
+                vars.extend(self.collect_unlocked_vars(then_block));
+                if let Some(else_stmts) = else_block {
+                    vars.extend(self.collect_unlocked_vars(else_stmts));
+                }
+            }
+            HirStatement::While { condition, body } => {
+                Self::collect_vars_from_expr(condition, &mut vars);
+                vars.extend(self.collect_unlocked_vars(body));
+            }
+            HirStatement::For { init, condition, increment, body } => {
+                vars.extend(self.collect_unlocked_vars(init));
+                if let Some(condition) = condition {
+                    Self::collect_vars_from_expr(condition, &mut vars);
+                }
+                vars.extend(self.collect_unlocked_vars(increment));
+                vars.extend(self.collect_unlocked_vars(body));
+            }
+            HirStatement::Switch { condition, cases, default_case } => {
+                Self::collect_vars_from_expr(condition, &mut vars);
+                for case in cases {
+                    if let Some(value) = &case.value {
+                        Self::collect_vars_from_expr(value, &mut vars);
+                    }
+                    vars.extend(self.collect_unlocked_vars(&case.body));
+                }
+                if let Some(default_stmts) = default_case {
+                    vars.extend(self.collect_unlocked_vars(default_stmts));
+                }
             }
             _ => {}
         }
@@ -197,6 +239,23 @@ impl<'a> LockDisciplineChecker<'a> {
         vars
     }
 
+    /// Collect variable names accessed in a block outside the regions it locks itself
+    fn collect_unlocked_vars(&self, block: &[decy_hir::HirStatement]) -> Vec<String> {
+        let lock_regions = self.analyzer.find_lock_regions_in(block);
+        let mut vars = Vec::new();
+
+        for (idx, stmt) in block.iter().enumerate() {
+            if self.is_inside_any_region(idx, &lock_regions)
+                || LockAnalyzer::is_lock_operation(stmt)
+            {
+                continue;
+            }
+            vars.extend(self.collect_accessed_vars(stmt));
+        }
+
+        vars
+    }
+
     /// Recursively collect variable names from an expression
     fn collect_vars_from_expr(expr: &decy_hir::HirExpression, vars: &mut Vec<String>) {
         use decy_hir::HirExpression;
@@ -209,27 +268,56 @@ impl<'a> LockDisciplineChecker<'a> {
                 Self::collect_vars_from_expr(left, vars);
                 Self::collect_vars_from_expr(right, vars);
             }
-            HirExpression::UnaryOp { operand, .. } => {
+            HirExpression::UnaryOp { operand, .. }
+            | HirExpression::PostIncrement { operand }
+            | HirExpression::PreIncrement { operand }
+            | HirExpression::PostDecrement { operand }
+            | HirExpression::PreDecrement { operand }
+            | HirExpression::CxxDelete { operand } => {
                 Self::collect_vars_from_expr(operand, vars);
             }
-            HirExpression::FunctionCall { arguments, .. } => {
+            HirExpression::FunctionCall { arguments, .. }
+            | HirExpression::CompoundLiteral { initializers: arguments, .. }
+            | HirExpression::CxxNew { arguments, .. } => {
                 for arg in arguments {
                     Self::collect_vars_from_expr(arg, vars);
                 }
             }
-            HirExpression::AddressOf(inner) | HirExpression::Dereference(inner) => {
+            HirExpression::StringMethodCall { receiver, arguments, .. } => {
+                Self::collect_vars_from_expr(receiver, vars);
+                for arg in arguments {
+                    Self::collect_vars_from_expr(arg, vars);
+                }
+            }
+            HirExpression::AddressOf(inner)
+            | HirExpression::Dereference(inner)
+            | HirExpression::IsNotNull(inner) => {
                 Self::collect_vars_from_expr(inner, vars);
             }
-            HirExpression::ArrayIndex { array, index } => {
+            HirExpression::ArrayIndex { array, index }
+            | HirExpression::SliceIndex { slice: array, index, .. } => {
                 Self::collect_vars_from_expr(array, vars);
                 Self::collect_vars_from_expr(index, vars);
             }
-            HirExpression::FieldAccess { object, .. } => {
+            HirExpression::FieldAccess { object, .. }
+            | HirExpression::PointerFieldAccess { pointer: object, .. } => {
                 Self::collect_vars_from_expr(object, vars);
             }
-            HirExpression::Cast { expr, .. } => {
+            HirExpression::Cast { expr, .. }
+            | HirExpression::Calloc { count: expr, .. }
+            | HirExpression::Malloc { size: expr } => {
                 Self::collect_vars_from_expr(expr, vars);
             }
+            HirExpression::Realloc { pointer, new_size } => {
+                Self::collect_vars_from_expr(pointer, vars);
+                Self::collect_vars_from_expr(new_size, vars);
+            }
+            HirExpression::Ternary { condition, then_expr, else_expr } => {
+                Self::collect_vars_from_expr(condition, vars);
+                Self::collect_vars_from_expr(then_expr, vars);
+                Self::collect_vars_from_expr(else_expr, vars);
+            }
+            // Literals and sizeof don't reference variables
             _ => {}
         }
     }
-- 
2.43.0


From 360b56d926f13cfbae8b1118f3a2e99924d07170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:13 +0000
Subject: [PATCH 10/47] fix: a lock-order conflict is found whichever function
 is given first

Only the first acquisition of each lock was compared, so lock(a) lock(b)
lock(a) against lock(a) lock(b) was reported in one argument order and
missed in the other.
---
 crates/decy-verify/src/lock_verify.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/decy-verify/src/lock_verify.rs b/crates/decy-verify/src/lock_verify.rs
index ee3debc..4a03464 100644
--- a/crates/decy-verify/src/lock_verify.rs
+++ b/crates/decy-verify/src/lock_verify.rs
@@ -392,8 +392,12 @@ impl<'a> LockDisciplineChecker<'a> {
                 let lock_a = &ordering1[i];
                 let lock_b = &ordering1[j];
 
-                // Check if ordering2 has lock_b before lock_a
-                let pos_a_in_2 = ordering2.iter().position(|l| l == lock_a);
+                if lock_a == lock_b {
+                    continue;
+                }
+
+                // Check if ordering2 has lock_b before lock_a (at any acquisition)
+                let pos_a_in_2 = ordering2.iter().rposition(|l| l == lock_a);
                 let pos_b_in_2 = ordering2.iter().position(|l| l == lock_b);
 
                 if let (Some(pos_a), Some(pos_b)) = (pos_a_in_2, pos_b_in_2) {
-- 
2.43.0


From 053b0d37f85066f51bf85f3408d08aa253e5779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:06 +0000
Subject: [PATCH 11/47] fix: parenthesize the operand of unary minus and
 bitwise not

-(a + b) was generated as -a + b, ~(a | b) as !a | b, and -(a < b) negated a
Rust bool.
---
 crates/decy-codegen/src/expr_gen/calls.rs | 12 +++++++++++-
 crates/decy-codegen/src/expr_gen/misc.rs  | 10 ++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 221aefd..ca92c3b 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -118,7 +118,17 @@ impl CodeGenerator {
             _ => {
                 let op_str = Self::unary_operator_to_string(op);
                 let operand_code = self.generate_expression_with_context(operand, ctx);
-                format!("{}{}", op_str, operand_code)
+                // Unary operators bind tighter than every binary operator and than `as`, and
+                // `-`/`!` on a Rust bool is not C's operation on the int 0/1.
+                if matches!(op, UnaryOperator::Minus | UnaryOperator::BitwiseNot)
+                    && Self::is_boolean_expression(operand)
+                {
+                    format!("{}(({}) as i32)", op_str, operand_code)
+                } else if Self::needs_operand_parens(operand) {
+                    format!("{}({})", op_str, operand_code)
+                } else {
+                    format!("{}{}", op_str, operand_code)
+                }
             }
         }
     }
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 04bf3b8..65429c1 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -515,6 +515,16 @@ impl CodeGenerator {
         }
     }
 
+    /// Check if the text of an expression must be parenthesized to be an operand.
+    pub(crate) fn needs_operand_parens(expr: &HirExpression) -> bool {
+        matches!(
+            expr,
+            HirExpression::BinaryOp { .. }
+                | HirExpression::Cast { .. }
+                | HirExpression::Ternary { .. }
+        )
+    }
+
     /// DECY-138: Check if expression is a dereference of a string variable.
     /// Returns the variable name if it's a string dereference, None otherwise.
     /// Used for string iteration pattern: while (*str) → while !str.is_empty()
-- 
2.43.0


From 3a522807da5bfdedc12bf38c4697d239a0d2c414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:37 +0000
Subject: [PATCH 12/47] fix: convert comparison results used as arithmetic or
 shift operands

a + (b < c) was generated with a bool operand, which Rust refuses.
---
 .../decy-codegen/src/expr_gen/binary_ops.rs   | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 6e41df2..1291a75 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -54,13 +54,30 @@ impl CodeGenerator {
         let right_code = self.generate_expression_with_context(right, ctx);
         let op_str = Self::binary_operator_to_string(op);
 
-        let left_str = if matches!(*left, HirExpression::BinaryOp { .. }) {
+        // C's 0/1 result of a comparison or logical operator is a Rust bool: as an operand of
+        // an arithmetic or shift operator it has to become an integer again.
+        let wants_integers = matches!(
+            op,
+            BinaryOperator::Add
+                | BinaryOperator::Subtract
+                | BinaryOperator::Multiply
+                | BinaryOperator::Divide
+                | BinaryOperator::Modulo
+                | BinaryOperator::LeftShift
+                | BinaryOperator::RightShift
+        );
+
+        let left_str = if wants_integers && Self::is_boolean_expression(left) {
+            format!("(({}) as i32)", left_code)
+        } else if matches!(*left, HirExpression::BinaryOp { .. }) {
             format!("({})", left_code)
         } else {
             left_code.clone()
         };
 
-        let right_str = if matches!(*right, HirExpression::BinaryOp { .. }) {
+        let right_str = if wants_integers && Self::is_boolean_expression(right) {
+            format!("(({}) as i32)", right_code)
+        } else if matches!(*right, HirExpression::BinaryOp { .. }) {
             format!("({})", right_code)
         } else {
             right_code.clone()
-- 
2.43.0


From 05671be610f1709bd6a398b992021302df5da0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:37 +0000
Subject: [PATCH 13/47] fix: conditional expressions as operands and with
 comparison branches

An unparenthesized `if` operand does not continue into the binary operator in
statement position, and branches of type bool and i32 do not unify.
---
 .../decy-codegen/src/expr_gen/binary_ops.rs   |  4 +--
 crates/decy-codegen/src/expr_gen/misc.rs      | 30 ++++++++++++++-----
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 1291a75..30a44a4 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -69,7 +69,7 @@ impl CodeGenerator {
 
         let left_str = if wants_integers && Self::is_boolean_expression(left) {
             format!("(({}) as i32)", left_code)
-        } else if matches!(*left, HirExpression::BinaryOp { .. }) {
+        } else if matches!(*left, HirExpression::BinaryOp { .. } | HirExpression::Ternary { .. }) {
             format!("({})", left_code)
         } else {
             left_code.clone()
@@ -77,7 +77,7 @@ impl CodeGenerator {
 
         let right_str = if wants_integers && Self::is_boolean_expression(right) {
             format!("(({}) as i32)", right_code)
-        } else if matches!(*right, HirExpression::BinaryOp { .. }) {
+        } else if matches!(*right, HirExpression::BinaryOp { .. } | HirExpression::Ternary { .. }) {
             format!("({})", right_code)
         } else {
             right_code.clone()
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 65429c1..aa0f7e1 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -231,11 +231,12 @@ impl CodeGenerator {
         let expr_code = self.generate_expression_with_context(expr, ctx);
         let rust_type = Self::map_type(cast_target);
 
-        let expr_str = if matches!(*expr, HirExpression::BinaryOp { .. }) {
-            format!("({})", expr_code)
-        } else {
-            expr_code.clone()
-        };
+        let expr_str =
+            if matches!(*expr, HirExpression::BinaryOp { .. } | HirExpression::Ternary { .. }) {
+                format!("({})", expr_code)
+            } else {
+                expr_code.clone()
+            };
 
         let is_address_of = matches!(*expr, HirExpression::AddressOf(_))
             || matches!(
@@ -460,8 +461,10 @@ impl CodeGenerator {
         target_type: Option<&HirType>,
     ) -> String {
         let cond_code = self.generate_expression_with_context(condition, ctx);
-        let then_code = self.generate_expression_with_target_type(then_expr, ctx, target_type);
-        let else_code = self.generate_expression_with_target_type(else_expr, ctx, target_type);
+        let then_target = Self::branch_target(then_expr, target_type);
+        let then_code = self.generate_expression_with_target_type(then_expr, ctx, then_target);
+        let else_target = Self::branch_target(else_expr, target_type);
+        let else_code = self.generate_expression_with_target_type(else_expr, ctx, else_target);
 
         let cond_bool = if Self::is_boolean_expression(condition) {
             cond_code
@@ -472,6 +475,19 @@ impl CodeGenerator {
         format!("if {} {{ {} }} else {{ {} }}", cond_bool, then_code, else_code)
     }
 
+    /// The value of a conditional expression is an integer even if a branch is a comparison: both
+    /// branches must have one type.
+    fn branch_target<'a>(
+        branch: &HirExpression,
+        target_type: Option<&'a HirType>,
+    ) -> Option<&'a HirType> {
+        if target_type.is_none() && Self::is_boolean_expression(branch) {
+            Some(&HirType::Int)
+        } else {
+            target_type
+        }
+    }
+
     /// Convert unary operator to string.
     pub(crate) fn unary_operator_to_string(op: &decy_hir::UnaryOperator) -> &'static str {
         use decy_hir::UnaryOperator;
-- 
2.43.0


From 1ebd9388cc1cba5aa70d2a96048a553152810822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:37 +0000
Subject: [PATCH 14/47] fix: parenthesize a cast on the left of < and <<

`x as i32 < y` does not parse.
---
 crates/decy-codegen/src/expr_gen/binary_ops.rs |  5 ++++-
 crates/decy-codegen/src/expr_gen/misc.rs       | 12 ++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 30a44a4..93efc47 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -69,7 +69,10 @@ impl CodeGenerator {
 
         let left_str = if wants_integers && Self::is_boolean_expression(left) {
             format!("(({}) as i32)", left_code)
-        } else if matches!(*left, HirExpression::BinaryOp { .. } | HirExpression::Ternary { .. }) {
+        } else if matches!(*left, HirExpression::BinaryOp { .. } | HirExpression::Ternary { .. })
+            || (matches!(op, BinaryOperator::LessThan | BinaryOperator::LeftShift)
+                && Self::ends_in_cast(left, &left_code))
+        {
             format!("({})", left_code)
         } else {
             left_code.clone()
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index aa0f7e1..5d7fc35 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -531,6 +531,18 @@ impl CodeGenerator {
         }
     }
 
+    /// Check if the text of an expression ends in an `as` cast: a following `<` or `<<` would be
+    /// read as the start of generic arguments.
+    pub(crate) fn ends_in_cast(expr: &HirExpression, code: &str) -> bool {
+        match expr {
+            HirExpression::Cast { .. } | HirExpression::Sizeof { .. } => true,
+            HirExpression::FunctionCall { .. } | HirExpression::StringMethodCall { .. } => {
+                code.ends_with(" as i32")
+            }
+            _ => false,
+        }
+    }
+
     /// Check if the text of an expression must be parenthesized to be an operand.
     pub(crate) fn needs_operand_parens(expr: &HirExpression) -> bool {
         matches!(
-- 
2.43.0


From d3b8a996d4b56f6a46f39b9fb3c8bb66f42a9324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:28 +0000
Subject: [PATCH 15/47] fix: what a block declares is not known after it

A variable of another type declared in an inner block, or a local renamed because it shadows a
global, kept its type or name for the statements after the block.
---
 crates/decy-codegen/src/lib.rs      | 11 +++++
 crates/decy-codegen/src/stmt_gen.rs | 76 ++++++++++++++---------------
 2 files changed, 47 insertions(+), 40 deletions(-)

diff --git a/crates/decy-codegen/src/lib.rs b/crates/decy-codegen/src/lib.rs
index 13b2084..4a5dfd0 100644
--- a/crates/decy-codegen/src/lib.rs
+++ b/crates/decy-codegen/src/lib.rs
@@ -160,6 +160,17 @@ impl TypeContext {
         self.variables.insert(name, var_type);
     }
 
+    /// What is known of the variables in scope, to be restored at the end of a block.
+    fn scope(&self) -> (HashMap<String, HirType>, HashMap<String, String>) {
+        (self.variables.clone(), self.renamed_locals.clone())
+    }
+
+    /// Forget what was declared since `scope`.
+    fn leave_scope(&mut self, outer: (HashMap<String, HirType>, HashMap<String, String>)) {
+        self.variables = outer.0;
+        self.renamed_locals = outer.1;
+    }
+
     fn add_struct(&mut self, struct_def: &decy_hir::HirStruct) {
         let fields: Vec<(String, HirType)> = struct_def
             .fields()
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 718e1df..e651df1 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -389,6 +389,32 @@ impl CodeGenerator {
         }
     }
 
+    /// Generate the statements of a block, each on a line of its own. What the block declares is
+    /// not known after it.
+    fn generate_block(
+        &self,
+        stmts: &[HirStatement],
+        indent: &str,
+        function_name: Option<&str>,
+        ctx: &mut TypeContext,
+        return_type: Option<&HirType>,
+    ) -> String {
+        let outer = ctx.scope();
+        let mut code = String::new();
+        for stmt in stmts {
+            code.push_str(indent);
+            code.push_str(&self.generate_statement_with_context(
+                stmt,
+                function_name,
+                ctx,
+                return_type,
+            ));
+            code.push('\n');
+        }
+        ctx.leave_scope(outer);
+        code
+    }
+
     /// Generate an if statement.
     fn generate_if_statement(
         &self,
@@ -421,30 +447,18 @@ impl CodeGenerator {
         code.push_str(&format!("if {} {{\n", cond_str));
 
         // Generate then block
-        for stmt in then_block {
-            code.push_str("    ");
-            code.push_str(&self.generate_statement_with_context(
-                stmt,
-                function_name,
-                ctx,
-                return_type,
-            ));
-            code.push('\n');
-        }
+        code.push_str(&self.generate_block(then_block, "    ", function_name, ctx, return_type));
 
         // Generate else block if present
         if let Some(else_stmts) = else_block {
             code.push_str("} else {\n");
-            for stmt in else_stmts {
-                code.push_str("    ");
-                code.push_str(&self.generate_statement_with_context(
-                    stmt,
-                    function_name,
-                    ctx,
-                    return_type,
-                ));
-                code.push('\n');
-            }
+            code.push_str(&self.generate_block(
+                else_stmts,
+                "    ",
+                function_name,
+                ctx,
+                return_type,
+            ));
         }
 
         code.push('}');
@@ -487,16 +501,7 @@ impl CodeGenerator {
         code.push_str(&format!("while {} {{\n", cond_str));
 
         // Generate loop body
-        for stmt in body {
-            code.push_str("    ");
-            code.push_str(&self.generate_statement_with_context(
-                stmt,
-                function_name,
-                ctx,
-                return_type,
-            ));
-            code.push('\n');
-        }
+        code.push_str(&self.generate_block(body, "    ", function_name, ctx, return_type));
 
         code.push('}');
         code
@@ -660,16 +665,7 @@ impl CodeGenerator {
         }
 
         // Generate loop body
-        for stmt in body {
-            code.push_str("    ");
-            code.push_str(&self.generate_statement_with_context(
-                stmt,
-                function_name,
-                ctx,
-                return_type,
-            ));
-            code.push('\n');
-        }
+        code.push_str(&self.generate_block(body, "    ", function_name, ctx, return_type));
 
         // DECY-224: Generate ALL increment statements at end of body
         for inc_stmt in increment {
-- 
2.43.0


From 0f189dcf949d2b60057aca4455eb9114ffc9c98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:43 +0000
Subject: [PATCH 16/47] fix: the condition of a for loop is C's not-zero test

`for (; n; n--)` became `while n {`, which is no Rust.
---
 crates/decy-codegen/src/stmt_gen.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index e651df1..b53e661 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -629,6 +629,18 @@ impl CodeGenerator {
         }
     }
 
+    /// Generate the condition of a for loop: C's "not zero" (or "not null") as a bool.
+    fn generate_for_condition(&self, condition: &HirExpression, ctx: &TypeContext) -> String {
+        let cond_code = self.generate_expression_with_context(condition, ctx);
+        if Self::is_boolean_expression(condition) {
+            cond_code
+        } else if matches!(ctx.infer_expression_type(condition), Some(HirType::Pointer(_))) {
+            format!("!{}.is_null()", cond_code)
+        } else {
+            format!("({}) != 0", cond_code)
+        }
+    }
+
     /// Generate a for statement.
     #[allow(clippy::too_many_arguments)]
     fn generate_for_statement(
@@ -656,10 +668,7 @@ impl CodeGenerator {
 
         // Generate loop: `loop {}` for None (for(;;)), `while cond {}` for Some
         if let Some(cond) = condition {
-            code.push_str(&format!(
-                "while {} {{\n",
-                self.generate_expression_with_context(cond, ctx)
-            ));
+            code.push_str(&format!("while {} {{\n", self.generate_for_condition(cond, ctx)));
         } else {
             code.push_str("loop {\n");
         }
-- 
2.43.0


From b164e70e8e6ea5e066e47d174a5b0ccd5c40b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:34 +0000
Subject: [PATCH 17/47] fix: a variable declared by a for loop ends with the
 loop

`int i = 5; for (int i = 0; i < 3; i++) {} return i;` returned 3.
---
 crates/decy-codegen/src/stmt_gen.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index b53e661..578c919 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -629,6 +629,14 @@ impl CodeGenerator {
         }
     }
 
+    /// Check if one of the statements declares a variable whose name is already taken.
+    fn redeclares(stmts: &[HirStatement], ctx: &TypeContext) -> bool {
+        stmts.iter().any(|stmt| match stmt {
+            HirStatement::VariableDeclaration { name, .. } => ctx.get_type(name).is_some(),
+            _ => false,
+        })
+    }
+
     /// Generate the condition of a for loop: C's "not zero" (or "not null") as a bool.
     fn generate_for_condition(&self, condition: &HirExpression, ctx: &TypeContext) -> String {
         let cond_code = self.generate_expression_with_context(condition, ctx);
@@ -655,6 +663,14 @@ impl CodeGenerator {
     ) -> String {
         let mut code = String::new();
 
+        // What the loop declares is its own: where it takes the name of a variable in scope, a
+        // block keeps the two apart.
+        let outer = ctx.scope();
+        let own_block = Self::redeclares(init, ctx);
+        if own_block {
+            code.push_str("{\n");
+        }
+
         // DECY-224: Generate ALL init statements before loop
         for init_stmt in init {
             code.push_str(&self.generate_statement_with_context(
@@ -689,6 +705,10 @@ impl CodeGenerator {
         }
 
         code.push('}');
+        ctx.leave_scope(outer);
+        if own_block {
+            code.push_str("\n}");
+        }
         code
     }
 
-- 
2.43.0


From 3e7aac1ab3ebc3bb3e231a1e230c5fb94a421202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:41 +0000
Subject: [PATCH 18/47] fix: break and continue leave in Rust what they leave
 in C

In a for loop continue skipped the increment (an endless loop); in a switch a break inside an if
left the loop around the switch, and the statements after a break were executed.
---
 crates/decy-codegen/src/lib.rs      |   5 ++
 crates/decy-codegen/src/stmt_gen.rs | 116 +++++++++++++++++++++-------
 2 files changed, 93 insertions(+), 28 deletions(-)

diff --git a/crates/decy-codegen/src/lib.rs b/crates/decy-codegen/src/lib.rs
index 4a5dfd0..617fdc5 100644
--- a/crates/decy-codegen/src/lib.rs
+++ b/crates/decy-codegen/src/lib.rs
@@ -65,6 +65,9 @@ struct TypeContext {
     globals: std::collections::HashSet<String>,
     // DECY-245: Track locals renamed to avoid shadowing statics (original_name -> renamed_name)
     renamed_locals: HashMap<String, String>,
+    // The block that `break` and `continue` leave, where it is not the innermost Rust loop
+    break_label: Option<String>,
+    continue_label: Option<String>,
 }
 
 impl TypeContext {
@@ -78,6 +81,8 @@ impl TypeContext {
             string_iter_funcs: HashMap::new(),
             globals: std::collections::HashSet::new(),
             renamed_locals: HashMap::new(),
+            break_label: None,
+            continue_label: None,
         }
     }
 
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 578c919..be98194 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -51,8 +51,15 @@ impl CodeGenerator {
             HirStatement::While { condition, body } => {
                 self.generate_while_statement(condition, body, function_name, ctx, return_type)
             }
-            HirStatement::Break => "break;".to_string(),
-            HirStatement::Continue => "continue;".to_string(),
+            HirStatement::Break => match &ctx.break_label {
+                Some(label) => format!("break {};", label),
+                None => "break;".to_string(),
+            },
+            HirStatement::Continue => match &ctx.continue_label {
+                // The labeled block ends where C's `continue` goes: before the increment
+                Some(label) => format!("break {}; // continue;", label),
+                None => "continue;".to_string(),
+            },
             HirStatement::Assignment { target, value } => {
                 self.generate_assignment_statement(target, value, ctx)
             }
@@ -501,7 +508,11 @@ impl CodeGenerator {
         code.push_str(&format!("while {} {{\n", cond_str));
 
         // Generate loop body
+        let outer_break = ctx.break_label.take();
+        let outer_continue = ctx.continue_label.take();
         code.push_str(&self.generate_block(body, "    ", function_name, ctx, return_type));
+        ctx.break_label = outer_break;
+        ctx.continue_label = outer_continue;
 
         code.push('}');
         code
@@ -637,6 +648,22 @@ impl CodeGenerator {
         })
     }
 
+    /// Check if the statements contain a `continue` of the loop around them.
+    fn contains_continue(stmts: &[HirStatement]) -> bool {
+        stmts.iter().any(|stmt| match stmt {
+            HirStatement::Continue => true,
+            HirStatement::If { then_block, else_block, .. } => {
+                Self::contains_continue(then_block)
+                    || else_block.as_ref().is_some_and(|b| Self::contains_continue(b))
+            }
+            HirStatement::Switch { cases, default_case, .. } => {
+                cases.iter().any(|case| Self::contains_continue(&case.body))
+                    || default_case.as_ref().is_some_and(|b| Self::contains_continue(b))
+            }
+            _ => false,
+        })
+    }
+
     /// Generate the condition of a for loop: C's "not zero" (or "not null") as a bool.
     fn generate_for_condition(&self, condition: &HirExpression, ctx: &TypeContext) -> String {
         let cond_code = self.generate_expression_with_context(condition, ctx);
@@ -690,7 +717,20 @@ impl CodeGenerator {
         }
 
         // Generate loop body
-        code.push_str(&self.generate_block(body, "    ", function_name, ctx, return_type));
+        let outer_break = ctx.break_label.take();
+        let outer_continue = ctx.continue_label.take();
+        if !increment.is_empty() && (Self::contains_continue(body) || Self::redeclares(body, ctx)) {
+            // `continue` has to reach the increment, and the increment does not see what the
+            // body declares: the body is a block of its own that `continue` leaves.
+            ctx.continue_label = Some("'next".to_string());
+            code.push_str("    'next: {\n");
+            code.push_str(&self.generate_block(body, "    ", function_name, ctx, return_type));
+            code.push_str("    }\n");
+        } else {
+            code.push_str(&self.generate_block(body, "    ", function_name, ctx, return_type));
+        }
+        ctx.break_label = outer_break;
+        ctx.continue_label = outer_continue;
 
         // DECY-224: Generate ALL increment statements at end of body
         for inc_stmt in increment {
@@ -712,6 +752,26 @@ impl CodeGenerator {
         code
     }
 
+    /// The statements of a case that are executed: those before its break.
+    fn until_break(body: &[HirStatement]) -> &[HirStatement] {
+        match body.iter().position(|stmt| matches!(stmt, HirStatement::Break)) {
+            Some(end) => &body[..end],
+            None => body,
+        }
+    }
+
+    /// Check if the statements contain a `break` of the switch around them.
+    fn contains_break(stmts: &[HirStatement]) -> bool {
+        stmts.iter().any(|stmt| match stmt {
+            HirStatement::Break => true,
+            HirStatement::If { then_block, else_block, .. } => {
+                Self::contains_break(then_block)
+                    || else_block.as_ref().is_some_and(|b| Self::contains_break(b))
+            }
+            _ => false,
+        })
+    }
+
     /// Generate a switch statement as a Rust match expression.
     fn generate_switch_statement(
         &self,
@@ -724,6 +784,16 @@ impl CodeGenerator {
     ) -> String {
         let mut code = String::new();
 
+        // A `break` inside a statement of a case leaves the switch, not a loop around it
+        let inner_break =
+            cases.iter().any(|case| Self::contains_break(Self::until_break(&case.body)))
+                || default_case.is_some_and(|body| Self::contains_break(Self::until_break(body)));
+        let outer_break = ctx.break_label.take();
+        if inner_break {
+            ctx.break_label = Some("'switch".to_string());
+            code.push_str("'switch: {\n");
+        }
+
         // Generate match expression
         code.push_str(&format!(
             "match {} {{\n",
@@ -754,19 +824,15 @@ impl CodeGenerator {
                 };
                 code.push_str(&format!("    {} => {{\n", case_pattern));
 
-                // Generate case body (filter out Break statements)
-                for stmt in &case.body {
-                    if !matches!(stmt, HirStatement::Break) {
-                        code.push_str("        ");
-                        code.push_str(&self.generate_statement_with_context(
-                            stmt,
-                            function_name,
-                            ctx,
-                            return_type,
-                        ));
-                        code.push('\n');
-                    }
-                }
+                // Generate case body (up to its break)
+                let body = Self::until_break(&case.body);
+                code.push_str(&self.generate_block(
+                    body,
+                    "        ",
+                    function_name,
+                    ctx,
+                    return_type,
+                ));
 
                 code.push_str("    },\n");
             }
@@ -775,22 +841,16 @@ impl CodeGenerator {
         // Generate default case (or empty default if not present)
         code.push_str("    _ => {\n");
         if let Some(default_stmts) = default_case {
-            for stmt in default_stmts {
-                if !matches!(stmt, HirStatement::Break) {
-                    code.push_str("        ");
-                    code.push_str(&self.generate_statement_with_context(
-                        stmt,
-                        function_name,
-                        ctx,
-                        return_type,
-                    ));
-                    code.push('\n');
-                }
-            }
+            let body = Self::until_break(default_stmts);
+            code.push_str(&self.generate_block(body, "        ", function_name, ctx, return_type));
         }
         code.push_str("    },\n");
 
         code.push('}');
+        ctx.break_label = outer_break;
+        if inner_break {
+            code.push_str("\n}");
+        }
         code
     }
 
-- 
2.43.0


From e7a77aee6b9d7d813aa1d9a21098389cbc341be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:58 +0000
Subject: [PATCH 19/47] fix: switch on a comparison matches the integers 0 and
 1

---
 crates/decy-codegen/src/stmt_gen.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index be98194..5dde44d 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -794,11 +794,13 @@ impl CodeGenerator {
             code.push_str("'switch: {\n");
         }
 
-        // Generate match expression
-        code.push_str(&format!(
-            "match {} {{\n",
+        // Generate match expression (a comparison is the integer 0 or 1 in C)
+        let condition_code = if Self::is_boolean_expression(condition) {
+            self.generate_expression_with_target_type(condition, ctx, Some(&HirType::Int))
+        } else {
             self.generate_expression_with_context(condition, ctx)
-        ));
+        };
+        code.push_str(&format!("match {} {{\n", condition_code));
 
         // DECY-209: Infer switch condition type for case pattern matching
         let condition_type = ctx.infer_expression_type(condition);
-- 
2.43.0


From 14665620028e4fef81c05f66751684684f844494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:49 +0000
Subject: [PATCH 20/47] fix: keyword-named parameters and assignment targets,
 and targets renamed because they shadow a global

---
 crates/decy-codegen/src/func_gen.rs      | 31 +++++++++++++-----------
 crates/decy-codegen/src/stmt_gen.rs      |  7 +++++-
 crates/decy-codegen/src/transform_gen.rs | 20 ++++++++-------
 3 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/crates/decy-codegen/src/func_gen.rs b/crates/decy-codegen/src/func_gen.rs
index 7a51bfc..db3b39d 100644
--- a/crates/decy-codegen/src/func_gen.rs
+++ b/crates/decy-codegen/src/func_gen.rs
@@ -4,7 +4,7 @@
 //! declarations: function signatures, function bodies with ownership analysis,
 //! struct/enum definitions, typedefs, constants, and global variables.
 
-use super::CodeGenerator;
+use super::{escape_rust_keyword, CodeGenerator};
 use decy_hir::{BinaryOperator, HirExpression, HirFunction, HirStatement, HirType};
 use decy_ownership::lifetime_gen::{AnnotatedSignature, AnnotatedType};
 
@@ -178,6 +178,8 @@ impl CodeGenerator {
         graph: &decy_ownership::dataflow::DataflowGraph,
         void_patterns: &[decy_analyzer::void_ptr_analysis::VoidPtrInfo],
     ) -> Option<String> {
+        let shown_name = escape_rust_keyword(&p.name);
+
         // Check if this is an array parameter
         let is_array = graph.is_array_parameter(&p.name).unwrap_or(false);
 
@@ -192,7 +194,7 @@ impl CodeGenerator {
                 let is_mutable = self.is_parameter_modified(func, &p.name);
                 let slice_type = self.pointer_to_slice_type(orig_param.param_type(), is_mutable);
                 // For slices, don't add 'mut' prefix (slices themselves aren't reassigned)
-                Some(format!("{}: {}", p.name, slice_type))
+                Some(format!("{}: {}", shown_name, slice_type))
             } else {
                 None
             }
@@ -205,9 +207,9 @@ impl CodeGenerator {
                     let is_mutable = self.is_parameter_modified(func, &p.name);
                     let element_str = Self::map_type(element_type);
                     if is_mutable {
-                        return Some(format!("{}: &mut [{}]", p.name, element_str));
+                        return Some(format!("{}: &mut [{}]", shown_name, element_str));
                     } else {
-                        return Some(format!("{}: &[{}]", p.name, element_str));
+                        return Some(format!("{}: &[{}]", shown_name, element_str));
                     }
                 }
             }
@@ -218,7 +220,7 @@ impl CodeGenerator {
                 // DECY-138: Add mut for string iteration patterns (param reassignment)
                 // Must check BEFORE other pointer transformations
                 if orig_param.is_const_char_pointer() {
-                    return Some(format!("mut {}: &str", p.name));
+                    return Some(format!("mut {}: &str", shown_name));
                 }
 
                 if let HirType::Pointer(inner) = orig_param.param_type() {
@@ -228,7 +230,7 @@ impl CodeGenerator {
             // Regular parameter with lifetime annotation
             let type_str = self.annotated_type_to_string(&p.param_type);
             // In C, parameters are mutable by default (can be reassigned)
-            Some(format!("mut {}: {}", p.name, type_str))
+            Some(format!("mut {}: {}", shown_name, type_str))
         }
     }
 
@@ -241,6 +243,7 @@ impl CodeGenerator {
         void_patterns: &[decy_analyzer::void_ptr_analysis::VoidPtrInfo],
     ) -> String {
         use decy_analyzer::void_ptr_analysis::TypeConstraint;
+        let shown_name = escape_rust_keyword(name);
 
         // DECY-096: void* param becomes generic &T or &mut T
         // DECY-168: Only apply generic transformation if we found an actual pattern
@@ -258,14 +261,14 @@ impl CodeGenerator {
                 // Found actual usage pattern - apply generic transformation
                 let is_mutable = pattern.constraints.contains(&TypeConstraint::Mutable);
                 if is_mutable {
-                    return format!("{}: &mut T", name);
+                    return format!("{}: &mut T", shown_name);
                 } else {
-                    return format!("{}: &T", name);
+                    return format!("{}: &T", shown_name);
                 }
             } else {
                 // DECY-168: No pattern with real constraints found - keep as raw pointer
                 // This is important for stdlib stubs (realloc, memcpy, etc.)
-                return format!("{}: *mut ()", name);
+                return format!("{}: *mut ()", shown_name);
             }
         }
         // DECY-134: Check for string iteration pattern FIRST
@@ -274,9 +277,9 @@ impl CodeGenerator {
             // Transform to slice for safe string iteration
             let is_mutable = self.is_parameter_deref_modified(func, name);
             if is_mutable {
-                return format!("{}: &mut [u8]", name);
+                return format!("{}: &mut [u8]", shown_name);
             } else {
-                return format!("{}: &[u8]", name);
+                return format!("{}: &[u8]", shown_name);
             }
         }
         // DECY-123: Don't transform to reference if pointer arithmetic is used
@@ -285,17 +288,17 @@ impl CodeGenerator {
             // Keep as raw pointer - will need unsafe blocks
             // DECY-124: Add mut since the pointer is reassigned
             let inner_type = Self::map_type(inner);
-            return format!("mut {}: *mut {}", name, inner_type);
+            return format!("mut {}: *mut {}", shown_name, inner_type);
         }
         // Transform pointer param to mutable reference
         // Check if the param is modified in the function body
         let is_mutable = self.is_parameter_deref_modified(func, name);
         let inner_type = Self::map_type(inner);
         if is_mutable {
-            format!("{}: &mut {}", name, inner_type)
+            format!("{}: &mut {}", shown_name, inner_type)
         } else {
             // Read-only pointer becomes immutable reference
-            format!("{}: &{}", name, inner_type)
+            format!("{}: &{}", shown_name, inner_type)
         }
     }
 
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 5dde44d..3e9cfd9 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -631,9 +631,14 @@ impl CodeGenerator {
             }
             // DECY-220: Wrap global variable assignment in unsafe block
             // DECY-261: Strip nested unsafe from value_code to avoid redundancy
-            if ctx.is_global(target) {
+            let escaped_target = escape_rust_keyword(target);
+            if let Some(renamed) = ctx.get_renamed_local(&escaped_target) {
+                format!("{} = {};", renamed, value_code)
+            } else if ctx.is_global(target) {
                 let clean_value = strip_nested_unsafe(&value_code);
                 format!("unsafe {{ {} = {}; }}", target, clean_value)
+            } else if ctx.get_type(target).is_some() {
+                format!("{} = {};", escaped_target, value_code)
             } else {
                 format!("{} = {};", target, value_code)
             }
diff --git a/crates/decy-codegen/src/transform_gen.rs b/crates/decy-codegen/src/transform_gen.rs
index 2d976d0..d5649ff 100644
--- a/crates/decy-codegen/src/transform_gen.rs
+++ b/crates/decy-codegen/src/transform_gen.rs
@@ -202,6 +202,7 @@ impl CodeGenerator {
             _ => false,
         };
 
+        let shown_name = escape_rust_keyword(&p.name);
         if is_slice {
             // DECY-072: Slices don't need 'mut' prefix or explicit lifetimes
             let type_str = match &p.param_type {
@@ -218,7 +219,7 @@ impl CodeGenerator {
                 }
                 _ => self.annotated_type_to_string(&p.param_type),
             };
-            return format!("{}: {}", p.name, type_str);
+            return format!("{}: {}", shown_name, type_str);
         }
 
         // DECY-111: Transform pointer parameters to mutable references
@@ -230,11 +231,11 @@ impl CodeGenerator {
         // DECY-196: Handle unsized array parameters → slice references
         if let AnnotatedType::Simple(HirType::Array { element_type, size: None }) = &p.param_type {
             let element_str = Self::map_type(element_type);
-            return format!("{}: &mut [{}]", p.name, element_str);
+            return format!("{}: &mut [{}]", shown_name, element_str);
         }
 
         // DECY-041: Add mut for all non-slice parameters to match C semantics
-        format!("mut {}: {}", p.name, self.annotated_type_to_string(&p.param_type))
+        format!("mut {}: {}", shown_name, self.annotated_type_to_string(&p.param_type))
     }
 
     /// Generate an annotated pointer parameter (reference, raw pointer, slice, or &str).
@@ -244,11 +245,12 @@ impl CodeGenerator {
         inner: &HirType,
         func: Option<&HirFunction>,
     ) -> String {
+        let shown_name = escape_rust_keyword(name);
         // DECY-135: const char* → &str transformation
         if let Some(f) = func {
             if let Some(orig_param) = f.parameters().iter().find(|fp| fp.name() == name) {
                 if orig_param.is_const_char_pointer() {
-                    return format!("mut {}: &str", name);
+                    return format!("mut {}: &str", shown_name);
                 }
             }
         }
@@ -257,9 +259,9 @@ impl CodeGenerator {
             if self.is_string_iteration_param(f, name) {
                 let is_mutable = self.is_parameter_deref_modified(f, name);
                 if is_mutable {
-                    return format!("{}: &mut [u8]", name);
+                    return format!("{}: &mut [u8]", shown_name);
                 } else {
-                    return format!("{}: &[u8]", name);
+                    return format!("{}: &[u8]", shown_name);
                 }
             }
         }
@@ -267,16 +269,16 @@ impl CodeGenerator {
         if let Some(f) = func {
             if self.uses_pointer_arithmetic(f, name) {
                 let inner_type = Self::map_type(inner);
-                return format!("mut {}: *mut {}", name, inner_type);
+                return format!("mut {}: *mut {}", shown_name, inner_type);
             }
         }
         // DECY-168: void* parameters should stay as raw pointers
         if matches!(*inner, HirType::Void) {
-            return format!("{}: *mut ()", name);
+            return format!("{}: *mut ()", shown_name);
         }
         // Transform *mut T → &mut T for safety
         let inner_type = Self::map_type(inner);
-        format!("{}: &mut {}", name, inner_type)
+        format!("{}: &mut {}", shown_name, inner_type)
     }
 
     /// Append return type for annotated signature.
-- 
2.43.0


From a0b923f314f56e05d3f7090bd02f661ebab74972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:39 +0000
Subject: [PATCH 21/47] fix: loop and else bodies are read whole, with or
 without braces

The body of while without braces was dropped, else if lost its condition,
and a single statement of some kinds (compound assignment, do, block) was
dropped as a branch or a for body.
---
 crates/decy-parser/src/extract/expressions.rs | 29 +------
 crates/decy-parser/src/extract/statements.rs  | 80 ++++++-------------
 2 files changed, 26 insertions(+), 83 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 2df955f..b08986c 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -7,7 +7,7 @@ use std::ptr;
 
 use super::statements::{
     extract_assignment_stmt, extract_for_stmt, extract_if_stmt, extract_inc_dec_stmt,
-    extract_return_stmt, extract_switch_stmt, extract_var_decl, extract_while_stmt,
+    extract_return_stmt, extract_var_decl, extract_while_stmt,
 };
 use super::types::convert_type;
 
@@ -119,33 +119,6 @@ pub(crate) fn extract_expression_from_cursor(cursor: CXCursor) -> Option<Express
     }
 }
 
-/// Extract a single statement from a cursor (for non-compound for bodies)
-pub(crate) fn extract_single_statement(cursor: CXCursor) -> Option<Statement> {
-    let kind = unsafe { clang_getCursorKind(cursor) };
-    match kind {
-        CXCursor_IfStmt => extract_if_stmt(cursor),
-        CXCursor_ForStmt => extract_for_stmt(cursor),
-        CXCursor_WhileStmt => extract_while_stmt(cursor),
-        CXCursor_ReturnStmt => extract_return_stmt(cursor),
-        CXCursor_SwitchStmt => extract_switch_stmt(cursor),
-        CXCursor_UnaryOperator => extract_inc_dec_stmt(cursor),
-        CXCursor_BinaryOperator => extract_assignment_stmt(cursor),
-        CXCursor_CallExpr => {
-            if let Some(Expression::FunctionCall { function, arguments }) =
-                extract_function_call(cursor)
-            {
-                Some(Statement::FunctionCall { function, arguments })
-            } else {
-                None
-            }
-        }
-        CXCursor_BreakStmt => Some(Statement::Break),
-        CXCursor_ContinueStmt => Some(Statement::Continue),
-        CXCursor_DoStmt | CXCursor_NullStmt => None, // Not supported yet
-        _ => None,
-    }
-}
-
 /// Visitor callback for extracting expressions.
 ///
 /// # Safety
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 331ee8d..3fe0625 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -8,13 +8,29 @@ use std::ptr;
 use super::expressions::{
     extract_array_index, extract_binary_op, extract_binary_operator, extract_char_literal,
     extract_expression_from_cursor, extract_field_access, extract_float_literal,
-    extract_function_call, extract_int_literal, extract_single_statement, extract_statement,
-    extract_unary_op, extract_variable_ref, try_extract_expression, visit_binary_operand,
-    visit_expression,
+    extract_function_call, extract_int_literal, extract_statement, extract_unary_op,
+    extract_variable_ref, try_extract_expression, visit_binary_operand, visit_expression,
 };
 use super::types::convert_type;
 use super::visit_statement;
 
+/// Extract the statements of a body: a block in braces or a single statement.
+pub(crate) fn extract_body(cursor: CXCursor) -> Vec<Statement> {
+    let mut body: Vec<Statement> = Vec::new();
+    let body_ptr = &mut body as *mut Vec<Statement> as CXClientData;
+    let kind = unsafe { clang_getCursorKind(cursor) };
+
+    if kind == CXCursor_CompoundStmt
+        || visit_statement(cursor, cursor, body_ptr) == CXChildVisit_Recurse
+    {
+        unsafe {
+            clang_visitChildren(cursor, visit_statement, body_ptr);
+        }
+    }
+
+    body
+}
+
 /// Extract a variable declaration statement.
 pub(crate) fn extract_var_decl(cursor: CXCursor) -> Option<Statement> {
     // DECY-223: Check storage class - skip extern declarations without initializers
@@ -646,44 +662,14 @@ pub(crate) extern "C" fn visit_if_children(
         1 => {
             // Second child: then block
             // DECY-216: Handle both compound statements (with braces) and single statements
-            if kind == CXCursor_CompoundStmt {
-                let body_ptr = &mut if_data.then_block as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
-                }
-            } else {
-                // Single statement without braces: if (cond) return 1;
-                if let Some(stmt) = extract_single_statement(cursor) {
-                    if_data.then_block.push(stmt);
-                }
-            }
+            if_data.then_block = extract_body(cursor);
             if_data.child_index += 1;
             CXChildVisit_Continue
         }
         2 => {
             // Third child (optional): else block
             // DECY-216: Handle compound, if-else chain, and single statement
-            if kind == CXCursor_CompoundStmt {
-                let mut else_stmts = Vec::new();
-                let body_ptr = &mut else_stmts as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
-                }
-                if_data.else_block = Some(else_stmts);
-            } else if kind == CXCursor_IfStmt {
-                // else if chain
-                let mut else_stmts = Vec::new();
-                let body_ptr = &mut else_stmts as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
-                }
-                if_data.else_block = Some(else_stmts);
-            } else {
-                // Single statement in else: else return 0;
-                if let Some(stmt) = extract_single_statement(cursor) {
-                    if_data.else_block = Some(vec![stmt]);
-                }
-            }
+            if_data.else_block = Some(extract_body(cursor));
             if_data.child_index += 1;
             CXChildVisit_Continue
         }
@@ -733,7 +719,6 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     let mut init: Vec<Statement> = Vec::new();
     let mut condition: Option<Expression> = None;
     let mut increment: Vec<Statement> = Vec::new();
-    let mut body: Vec<Statement> = Vec::new();
 
     let num_children = collector.children.len();
 
@@ -814,7 +799,7 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     }
 
     if num_children == 0 {
-        return Some(Statement::For { init, condition, increment, body });
+        return Some(Statement::For { init, condition, increment, body: Vec::new() });
     }
 
     // Process children based on count and types
@@ -823,17 +808,7 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     let body_child = &collector.children[body_idx];
 
     // Extract body
-    if body_child.kind == CXCursor_CompoundStmt {
-        let body_ptr = &mut body as *mut Vec<Statement>;
-        unsafe {
-            clang_visitChildren(body_child.cursor, visit_statement, body_ptr as CXClientData);
-        }
-    } else {
-        // Single statement body - extract it
-        if let Some(stmt) = extract_single_statement(body_child.cursor) {
-            body.push(stmt);
-        }
-    }
+    let body = extract_body(body_child.cursor);
 
     // Process children before body
     let pre_body = &collector.children[..body_idx];
@@ -998,13 +973,8 @@ pub(crate) extern "C" fn visit_while_children(
             CXChildVisit_Continue
         }
         1 => {
-            // Second child: body
-            if kind == CXCursor_CompoundStmt {
-                let body_ptr = &mut while_data.body as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
-                }
-            }
+            // Second child: body, in braces or a single statement
+            while_data.body = extract_body(cursor);
             while_data.child_index += 1;
             CXChildVisit_Continue
         }
-- 
2.43.0


From 9337edd389fd4b274b34ca1b4c586d0a6f902567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:56 +0000
Subject: [PATCH 22/47] fix: compound assignment with <<=, >>=, &=, |= and ^=
 is not dropped, nor any as a for increment

---
 crates/decy-parser/src/extract/statements.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 3fe0625..c350cae 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -470,7 +470,7 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
     }
 }
 
-/// Extract a compound assignment statement (+=, -=, *=, /=, %=).
+/// Extract a compound assignment statement (+=, -=, *=, /=, %=, <<=, >>=, &=, |=, ^=).
 pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<Statement> {
     // Get the translation unit
     let tu = unsafe { clang_Cursor_getTranslationUnit(cursor) };
@@ -507,6 +507,11 @@ pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<State
                         "*=" => Some(BinaryOperator::Multiply),
                         "/=" => Some(BinaryOperator::Divide),
                         "%=" => Some(BinaryOperator::Modulo),
+                        "<<=" => Some(BinaryOperator::LeftShift),
+                        ">>=" => Some(BinaryOperator::RightShift),
+                        "&=" => Some(BinaryOperator::BitwiseAnd),
+                        "|=" => Some(BinaryOperator::BitwiseOr),
+                        "^=" => Some(BinaryOperator::BitwiseXor),
                         _ => None,
                     };
                     if operator.is_some() {
@@ -794,6 +799,8 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
             if let Some(stmt) = extract_inc_dec_stmt(cursor) {
                 stmts.push(stmt);
             }
+        } else {
+            stmts = extract_body(cursor);
         }
         stmts
     }
-- 
2.43.0


From 7c914782546c314b55e9a691e979b045ed4db5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:51 +0000
Subject: [PATCH 23/47] fix: a conditional expression or cast as a condition is
 read whole

---
 crates/decy-parser/src/extract/expressions.rs |  2 ++
 crates/decy-parser/src/extract/statements.rs  | 13 +++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index b08986c..edb9d3f 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -108,6 +108,8 @@ pub(crate) fn extract_expression_from_cursor(cursor: CXCursor) -> Option<Express
         CXCursor_DeclRefExpr => extract_variable_ref(cursor),
         CXCursor_CallExpr => extract_function_call(cursor),
         CXCursor_UnaryOperator => extract_unary_op(cursor),
+        116 => extract_conditional_op(cursor), // CXCursor_ConditionalOperator
+        117 => extract_cast(cursor),           // CXCursor_CStyleCastExpr
         _ => {
             let mut expr: Option<Expression> = None;
             let expr_ptr = &mut expr as *mut Option<Expression>;
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index c350cae..d917709 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -6,10 +6,11 @@ use std::ffi::CStr;
 use std::ptr;
 
 use super::expressions::{
-    extract_array_index, extract_binary_op, extract_binary_operator, extract_char_literal,
-    extract_expression_from_cursor, extract_field_access, extract_float_literal,
-    extract_function_call, extract_int_literal, extract_statement, extract_unary_op,
-    extract_variable_ref, try_extract_expression, visit_binary_operand, visit_expression,
+    extract_array_index, extract_binary_op, extract_binary_operator, extract_cast,
+    extract_char_literal, extract_conditional_op, extract_expression_from_cursor,
+    extract_field_access, extract_float_literal, extract_function_call, extract_int_literal,
+    extract_statement, extract_unary_op, extract_variable_ref, try_extract_expression,
+    visit_binary_operand, visit_expression,
 };
 use super::types::convert_type;
 use super::visit_statement;
@@ -651,6 +652,8 @@ pub(crate) extern "C" fn visit_if_children(
                 CXCursor_DeclRefExpr => extract_variable_ref(cursor),
                 CXCursor_CallExpr => extract_function_call(cursor),
                 CXCursor_UnaryOperator => extract_unary_op(cursor),
+                116 => extract_conditional_op(cursor), // CXCursor_ConditionalOperator
+                117 => extract_cast(cursor),           // CXCursor_CStyleCastExpr
                 _ => {
                     // For other expression types, try visiting children
                     let mut cond_expr: Option<Expression> = None;
@@ -967,6 +970,8 @@ pub(crate) extern "C" fn visit_while_children(
                 CXCursor_DeclRefExpr => extract_variable_ref(cursor),
                 CXCursor_CallExpr => extract_function_call(cursor),
                 CXCursor_UnaryOperator => extract_unary_op(cursor),
+                116 => extract_conditional_op(cursor), // CXCursor_ConditionalOperator
+                117 => extract_cast(cursor),           // CXCursor_CStyleCastExpr
                 _ => {
                     let mut cond_expr: Option<Expression> = None;
                     let expr_ptr = &mut cond_expr as *mut Option<Expression>;
-- 
2.43.0


From 0d15719179c576de398c0a2a608ac87d42301a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:41 +0000
Subject: [PATCH 24/47] fix: the parts of a for header are told by its
 semicolons, and a comma init is kept

---
 crates/decy-parser/src/extract/statements.rs | 192 ++++++++-----------
 1 file changed, 79 insertions(+), 113 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index d917709..51dfe48 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -685,6 +685,66 @@ pub(crate) extern "C" fn visit_if_children(
     }
 }
 
+/// Offset in its file of a location (of the expansion, for a macro).
+fn expansion_offset(location: CXSourceLocation) -> u32 {
+    let mut offset = 0;
+    unsafe {
+        clang_getExpansionLocation(
+            location,
+            ptr::null_mut(),
+            ptr::null_mut(),
+            ptr::null_mut(),
+            &mut offset,
+        );
+    }
+    offset
+}
+
+/// Offsets of the two semicolons in the header of a for loop.
+fn for_header_semicolons(cursor: CXCursor) -> Vec<u32> {
+    let tu = unsafe { clang_Cursor_getTranslationUnit(cursor) };
+    if tu.is_null() {
+        return Vec::new();
+    }
+
+    let extent = unsafe { clang_getCursorExtent(cursor) };
+    let mut tokens = ptr::null_mut();
+    let mut num_tokens = 0;
+    unsafe {
+        clang_tokenize(tu, extent, &mut tokens, &mut num_tokens);
+    }
+
+    let mut semicolons = Vec::new();
+    let mut depth = 0;
+    for i in 0..num_tokens {
+        let (spelling, location) = unsafe {
+            let token = *tokens.add(i as usize);
+            let token_cxstring = clang_getTokenSpelling(tu, token);
+            let spelling =
+                CStr::from_ptr(clang_getCString(token_cxstring)).to_string_lossy().into_owned();
+            clang_disposeString(token_cxstring);
+            (spelling, clang_getTokenLocation(tu, token))
+        };
+        match spelling.as_str() {
+            "(" => depth += 1,
+            ")" => {
+                depth -= 1;
+                if depth == 0 {
+                    break;
+                }
+            }
+            ";" if depth == 1 => semicolons.push(expansion_offset(location)),
+            _ => {}
+        }
+    }
+
+    unsafe {
+        clang_disposeTokens(tu, tokens, num_tokens);
+    }
+
+    semicolons
+}
+
 /// Extract a for loop statement.
 pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     // DECY-200: Two-pass approach to handle for loops with empty parts
@@ -734,34 +794,6 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     // The children before body are init/condition/increment in that order,
     // but clang omits empty ones
 
-    // Helper to check if a BinaryOperator is an assignment
-    fn is_assignment_op(cursor: CXCursor) -> bool {
-        if let Some(op) = extract_binary_operator(cursor) {
-            matches!(op, BinaryOperator::Assign)
-        } else {
-            false
-        }
-    }
-
-    // Helper to check if a BinaryOperator is a comparison/logical (condition)
-    fn is_condition_op(cursor: CXCursor) -> bool {
-        if let Some(op) = extract_binary_operator(cursor) {
-            matches!(
-                op,
-                BinaryOperator::Equal
-                    | BinaryOperator::NotEqual
-                    | BinaryOperator::LessThan
-                    | BinaryOperator::GreaterThan
-                    | BinaryOperator::LessEqual
-                    | BinaryOperator::GreaterEqual
-                    | BinaryOperator::LogicalAnd
-                    | BinaryOperator::LogicalOr
-            )
-        } else {
-            false
-        }
-    }
-
     // DECY-224: Helper to extract increment statements (handles comma operator)
     fn extract_increment_stmts(cursor: CXCursor) -> Vec<Statement> {
         let kind = unsafe { clang_getCursorKind(cursor) };
@@ -823,95 +855,29 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     // Process children before body
     let pre_body = &collector.children[..body_idx];
 
-    match pre_body.len() {
-        0 => {
-            // for (;;) - infinite loop with no init/condition/increment
-        }
-        1 => {
-            // One child before body - could be init, condition, or increment
-            // Use heuristics to determine which
-            let child = &pre_body[0];
-            if child.kind == CXCursor_DeclStmt {
-                // DeclStmt - always init
-                let mut init_stmts = Vec::new();
-                let ptr = &mut init_stmts as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(child.cursor, visit_statement, ptr as CXClientData);
-                }
-            } else if child.kind == CXCursor_BinaryOperator {
-                if is_assignment_op(child.cursor) {
-                    // Assignment - treat as init
-                    if let Some(stmt) = extract_assignment_stmt(child.cursor) {
-                        init.push(stmt);
-                    }
-                } else if is_condition_op(child.cursor) {
-                    // Comparison - treat as condition
-                    condition = extract_binary_op(child.cursor);
-                } else {
-                    // Ambiguous - default to condition
-                    condition = extract_binary_op(child.cursor);
-                }
-            } else if child.kind == CXCursor_UnaryOperator {
-                increment = extract_increment_stmts(child.cursor);
-            } else {
-                // Treat as condition by default
-                condition = extract_expression_from_cursor(child.cursor);
-            }
-        }
-        2 => {
-            // Two children before body
-            // Most common case: condition and increment (init is empty)
-            let child0 = &pre_body[0];
-            let child1 = &pre_body[1];
-
-            // Check if first child is init (DeclStmt or assignment)
-            let first_is_init = child0.kind == CXCursor_DeclStmt
-                || (child0.kind == CXCursor_BinaryOperator && is_assignment_op(child0.cursor));
-
-            if first_is_init {
-                // child0 = init, child1 = condition (skip increment)
-                if child0.kind == CXCursor_DeclStmt {
-                    // DECY-224: Collect ALL declarations
-                    let ptr = &mut init as *mut Vec<Statement>;
-                    unsafe {
-                        clang_visitChildren(child0.cursor, visit_statement, ptr as CXClientData);
-                    }
-                } else if let Some(stmt) = extract_assignment_stmt(child0.cursor) {
-                    init.push(stmt);
-                }
-                condition = extract_expression_from_cursor(child1.cursor);
-            } else {
-                // child0 = condition, child1 = increment (no init)
-                condition = extract_expression_from_cursor(child0.cursor);
-                increment = extract_increment_stmts(child1.cursor);
-            }
-        }
-        3 => {
-            // Three children before body - init, condition, increment all present
-            let child0 = &pre_body[0];
-            let child1 = &pre_body[1];
-            let child2 = &pre_body[2];
-
-            // Init - DECY-224: Collect ALL declarations
-            if child0.kind == CXCursor_DeclStmt {
+    // Clang omits empty parts: the semicolons of the header tell which part a child is
+    let semicolons = for_header_semicolons(cursor);
+
+    for (index, child) in pre_body.iter().enumerate() {
+        let part = if semicolons.len() == 2 {
+            let start = unsafe { clang_getRangeStart(clang_getCursorExtent(child.cursor)) };
+            let offset = expansion_offset(start);
+            semicolons.iter().filter(|semicolon| **semicolon < offset).count()
+        } else {
+            index
+        };
+        match part {
+            0 if child.kind == CXCursor_DeclStmt => {
+                // DECY-224: Collect ALL declarations
                 let ptr = &mut init as *mut Vec<Statement>;
                 unsafe {
-                    clang_visitChildren(child0.cursor, visit_statement, ptr as CXClientData);
-                }
-            } else if child0.kind == CXCursor_BinaryOperator {
-                if let Some(stmt) = extract_assignment_stmt(child0.cursor) {
-                    init.push(stmt);
+                    clang_visitChildren(child.cursor, visit_statement, ptr as CXClientData);
                 }
             }
-
-            // Condition
-            condition = extract_expression_from_cursor(child1.cursor);
-
-            // Increment - DECY-224: Handle comma operators
-            increment = extract_increment_stmts(child2.cursor);
-        }
-        _ => {
-            // More than 3 children before body - unexpected, handle gracefully
+            // DECY-224: Handle comma operators
+            0 => init = extract_increment_stmts(child.cursor),
+            1 => condition = extract_expression_from_cursor(child.cursor),
+            _ => increment = extract_increment_stmts(child.cursor),
         }
     }
 
-- 
2.43.0


From 6612a6ed726dbee415eb6e94df9f1aeaeb87f8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:05 +0000
Subject: [PATCH 25/47] fix: the cases of a switch keep all their statements,
 shared labels and fall-through

---
 crates/decy-parser/src/extract/statements.rs | 194 ++++++++-----------
 1 file changed, 80 insertions(+), 114 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 51dfe48..06fa40a 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -9,8 +9,8 @@ use super::expressions::{
     extract_array_index, extract_binary_op, extract_binary_operator, extract_cast,
     extract_char_literal, extract_conditional_op, extract_expression_from_cursor,
     extract_field_access, extract_float_literal, extract_function_call, extract_int_literal,
-    extract_statement, extract_unary_op, extract_variable_ref, try_extract_expression,
-    visit_binary_operand, visit_expression,
+    extract_unary_op, extract_variable_ref, try_extract_expression, visit_binary_operand,
+    visit_expression,
 };
 use super::types::convert_type;
 use super::visit_statement;
@@ -1007,7 +1007,6 @@ pub(crate) extern "C" fn visit_switch_children(
     }
 
     let switch_data = unsafe { &mut *(client_data as *mut SwitchData) };
-    let kind = unsafe { clang_getCursorKind(cursor) };
 
     match switch_data.child_index {
         0 => {
@@ -1020,10 +1019,16 @@ pub(crate) extern "C" fn visit_switch_children(
         }
         1 => {
             // Second child: compound statement body containing cases
-            // Need to visit this recursively to find case/default labels
-            if kind == CXCursor_CompoundStmt {
-                unsafe {
-                    clang_visitChildren(cursor, visit_switch_body, client_data);
+            let sections = extract_switch_sections(cursor);
+            for (index, section) in sections.iter().enumerate() {
+                let body = switch_section_body(&sections[index..]);
+                for label in &section.labels {
+                    match label {
+                        SwitchLabel::Case(value) => switch_data
+                            .cases
+                            .push(SwitchCase { value: value.clone(), body: body.clone() }),
+                        SwitchLabel::Default => switch_data.default_case = Some(body.clone()),
+                    }
                 }
             }
             switch_data.child_index += 1;
@@ -1033,128 +1038,89 @@ pub(crate) extern "C" fn visit_switch_children(
     }
 }
 
-/// Visitor callback for switch body to extract cases and default.
-pub(crate) extern "C" fn visit_switch_body(
-    cursor: CXCursor,
-    _parent: CXCursor,
-    client_data: CXClientData,
-) -> CXChildVisitResult {
-    #[repr(C)]
-    struct SwitchData {
-        condition: Option<Expression>,
-        cases: Vec<SwitchCase>,
-        default_case: Option<Vec<Statement>>,
-        child_index: u32,
-    }
-
-    let switch_data = unsafe { &mut *(client_data as *mut SwitchData) };
-    let kind = unsafe { clang_getCursorKind(cursor) };
-
-    match kind {
-        CXCursor_CaseStmt => {
-            // Extract case statement
-            if let Some(case) = extract_case_stmt(cursor) {
-                switch_data.cases.push(case);
-            }
-            CXChildVisit_Continue
-        }
-        CXCursor_DefaultStmt => {
-            // Extract default statement
-            if let Some(body) = extract_default_stmt(cursor) {
-                switch_data.default_case = Some(body);
-            }
-            CXChildVisit_Continue
-        }
-        _ => CXChildVisit_Continue,
-    }
+/// A label in the body of a switch.
+enum SwitchLabel {
+    Case(Option<Expression>),
+    Default,
 }
 
-/// Extract a case statement from a cursor.
-pub(crate) fn extract_case_stmt(cursor: CXCursor) -> Option<SwitchCase> {
-    // Case statement has 2 children:
-    // 1. Case value expression
-    // 2. Body (statements following the case label)
-
-    #[repr(C)]
-    struct CaseData {
-        value: Option<Expression>,
-        body: Vec<Statement>,
-        child_index: u32,
-    }
-
-    let mut case_data = CaseData { value: None, body: Vec::new(), child_index: 0 };
-
-    let data_ptr = &mut case_data as *mut CaseData;
-
-    unsafe {
-        clang_visitChildren(cursor, visit_case_children, data_ptr as CXClientData);
-    }
-
-    Some(SwitchCase { value: case_data.value, body: case_data.body })
+/// The labels at one place in the body of a switch, and the statements up to the next labels.
+struct SwitchSection {
+    labels: Vec<SwitchLabel>,
+    body: Vec<Statement>,
 }
 
-/// Visitor for case statement children.
-pub(crate) extern "C" fn visit_case_children(
-    cursor: CXCursor,
-    _parent: CXCursor,
-    client_data: CXClientData,
-) -> CXChildVisitResult {
-    #[repr(C)]
-    struct CaseData {
-        value: Option<Expression>,
-        body: Vec<Statement>,
-        child_index: u32,
+/// Split the body of a switch at its labels.
+fn extract_switch_sections(body: CXCursor) -> Vec<SwitchSection> {
+    let mut sections: Vec<SwitchSection> = Vec::new();
+    for child in children_of(body) {
+        let kind = unsafe { clang_getCursorKind(child) };
+        if kind == CXCursor_CaseStmt || kind == CXCursor_DefaultStmt {
+            let mut section = SwitchSection { labels: Vec::new(), body: Vec::new() };
+            extract_labeled_stmt(child, &mut section);
+            sections.push(section);
+        } else if let Some(section) = sections.last_mut() {
+            section.body.extend(extract_body(child));
+        }
     }
+    sections
+}
 
-    let case_data = unsafe { &mut *(client_data as *mut CaseData) };
-    let _kind = unsafe { clang_getCursorKind(cursor) };
-
-    match case_data.child_index {
-        0 => {
-            // First child: case value expression
-            if let Some(expr) = try_extract_expression(cursor) {
-                case_data.value = Some(expr);
-            }
-            case_data.child_index += 1;
-            CXChildVisit_Continue
+/// Extract the labels and the statement of a case or default label.
+fn extract_labeled_stmt(cursor: CXCursor, section: &mut SwitchSection) {
+    let kind = unsafe { clang_getCursorKind(cursor) };
+    if kind == CXCursor_CaseStmt {
+        let children = children_of(cursor);
+        section.labels.push(SwitchLabel::Case(
+            children.first().and_then(|value| try_extract_expression(*value)),
+        ));
+        for child in children.into_iter().skip(1) {
+            extract_labeled_stmt(child, section);
         }
-        _ => {
-            // Subsequent children: statements in case body
-            // Extract statements until we hit another case or default
-            if let Some(stmt) = extract_statement(cursor) {
-                case_data.body.push(stmt);
-            }
-            // Continue recursing to find all statements in the case body
-            CXChildVisit_Recurse
+    } else if kind == CXCursor_DefaultStmt {
+        section.labels.push(SwitchLabel::Default);
+        for child in children_of(cursor) {
+            extract_labeled_stmt(child, section);
         }
+    } else {
+        section.body.extend(extract_body(cursor));
     }
 }
 
-/// Extract a default statement from a cursor.
-pub(crate) fn extract_default_stmt(cursor: CXCursor) -> Option<Vec<Statement>> {
-    // Default statement has body statements as children
+/// What runs from the first of the sections on: C falls through to the next section unless the
+/// control leaves this one. A `break` at the end only ends the case.
+fn switch_section_body(sections: &[SwitchSection]) -> Vec<Statement> {
     let mut body: Vec<Statement> = Vec::new();
-    let body_ptr = &mut body as *mut Vec<Statement>;
-
-    unsafe {
-        clang_visitChildren(cursor, visit_default_children, body_ptr as CXClientData);
+    for section in sections {
+        body.extend(section.body.iter().cloned());
+        match body.last() {
+            Some(Statement::Break) => {
+                body.pop();
+                break;
+            }
+            Some(Statement::Return(_)) | Some(Statement::Continue) => break,
+            _ => {}
+        }
     }
-
-    Some(body)
+    body
 }
 
-/// Visitor for default statement children.
-pub(crate) extern "C" fn visit_default_children(
-    cursor: CXCursor,
-    _parent: CXCursor,
-    client_data: CXClientData,
-) -> CXChildVisitResult {
-    let body = unsafe { &mut *(client_data as *mut Vec<Statement>) };
-
-    // Extract all statements in default body
-    if let Some(stmt) = extract_statement(cursor) {
-        body.push(stmt);
+/// The children of a cursor.
+fn children_of(cursor: CXCursor) -> Vec<CXCursor> {
+    extern "C" fn collect(
+        cursor: CXCursor,
+        _parent: CXCursor,
+        client_data: CXClientData,
+    ) -> CXChildVisitResult {
+        let children = unsafe { &mut *(client_data as *mut Vec<CXCursor>) };
+        children.push(cursor);
+        CXChildVisit_Continue
     }
 
-    CXChildVisit_Continue
+    let mut children: Vec<CXCursor> = Vec::new();
+    let children_ptr = &mut children as *mut Vec<CXCursor>;
+    unsafe {
+        clang_visitChildren(cursor, collect, children_ptr as CXClientData);
+    }
+    children
 }
-- 
2.43.0


From 72f1b762fd333327ff1dd2d249ce41e2721a4de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:29 +0000
Subject: [PATCH 26/47] fix: a do-while loop is read as a loop

---
 crates/decy-parser/src/extract/mod.rs        | 13 +++++++---
 crates/decy-parser/src/extract/statements.rs | 26 ++++++++++++++++++++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/crates/decy-parser/src/extract/mod.rs b/crates/decy-parser/src/extract/mod.rs
index a616ccb..71646b3 100644
--- a/crates/decy-parser/src/extract/mod.rs
+++ b/crates/decy-parser/src/extract/mod.rs
@@ -24,9 +24,9 @@ use std::ptr;
 
 use self::expressions::extract_statement;
 use self::statements::{
-    extract_assignment_stmt, extract_compound_assignment_stmt, extract_for_stmt, extract_if_stmt,
-    extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt, extract_var_decl,
-    extract_while_stmt,
+    extract_assignment_stmt, extract_compound_assignment_stmt, extract_do_stmt, extract_for_stmt,
+    extract_if_stmt, extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt,
+    extract_var_decl, extract_while_stmt,
 };
 
 #[allow(non_upper_case_globals)]
@@ -321,6 +321,13 @@ pub(crate) extern "C" fn visit_statement(
             }
             CXChildVisit_Continue
         }
+        CXCursor_DoStmt => {
+            // Do-while loop
+            if let Some(stmt) = extract_do_stmt(cursor) {
+                statements.push(stmt);
+            }
+            CXChildVisit_Continue
+        }
         CXCursor_SwitchStmt => {
             // Switch statement
             if let Some(stmt) = extract_switch_stmt(cursor) {
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 06fa40a..3dc994d 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -960,6 +960,32 @@ pub(crate) extern "C" fn visit_while_children(
     }
 }
 
+/// Extract a do-while loop: `for (first = 1; first || condition; first = 0) body`.
+pub(crate) fn extract_do_stmt(cursor: CXCursor) -> Option<Statement> {
+    // A do-while loop has 2 children: the body and the condition
+    let children = children_of(cursor);
+    let (body, condition) = match children.as_slice() {
+        [body, condition] => (extract_body(*body), extract_expression_from_cursor(*condition)?),
+        _ => return None,
+    };
+
+    let first = "__first_pass".to_string();
+    Some(Statement::For {
+        init: vec![Statement::VariableDeclaration {
+            name: first.clone(),
+            var_type: Type::Int,
+            initializer: Some(Expression::IntLiteral(1)),
+        }],
+        condition: Some(Expression::BinaryOp {
+            op: BinaryOperator::LogicalOr,
+            left: Box::new(Expression::Variable(first.clone())),
+            right: Box::new(condition),
+        }),
+        increment: vec![Statement::Assignment { target: first, value: Expression::IntLiteral(0) }],
+        body,
+    })
+}
+
 /// Extract a switch statement from a cursor.
 ///
 /// Parses switch statements including cases and default labels.
-- 
2.43.0


From c689e4574fc86384963b49266d68da5214ebe657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:55 +0000
Subject: [PATCH 27/47] fix: a block in a block keeps its declarations to
 itself

---
 crates/decy-parser/src/extract/mod.rs        | 19 +++++++++++++++----
 crates/decy-parser/src/extract/statements.rs |  7 +++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/decy-parser/src/extract/mod.rs b/crates/decy-parser/src/extract/mod.rs
index 71646b3..7072564 100644
--- a/crates/decy-parser/src/extract/mod.rs
+++ b/crates/decy-parser/src/extract/mod.rs
@@ -24,9 +24,9 @@ use std::ptr;
 
 use self::expressions::extract_statement;
 use self::statements::{
-    extract_assignment_stmt, extract_compound_assignment_stmt, extract_do_stmt, extract_for_stmt,
-    extract_if_stmt, extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt,
-    extract_var_decl, extract_while_stmt,
+    declares_directly, extract_assignment_stmt, extract_body, extract_compound_assignment_stmt,
+    extract_do_stmt, extract_for_stmt, extract_if_stmt, extract_inc_dec_stmt, extract_return_stmt,
+    extract_switch_stmt, extract_var_decl, extract_while_stmt,
 };
 
 #[allow(non_upper_case_globals)]
@@ -261,7 +261,7 @@ pub(crate) extern "C" fn visit_function(
 #[allow(non_upper_case_globals)]
 pub(crate) extern "C" fn visit_statement(
     cursor: CXCursor,
-    _parent: CXCursor,
+    parent: CXCursor,
     client_data: CXClientData,
 ) -> CXChildVisitResult {
     // SAFETY: Converting client data back to statement vector pointer
@@ -272,6 +272,17 @@ pub(crate) extern "C" fn visit_statement(
 
     match kind {
         CXCursor_CompoundStmt => {
+            // A block in a block that declares something is a scope of its own: `if (1) { ... }`
+            if unsafe { clang_getCursorKind(parent) } == CXCursor_CompoundStmt
+                && declares_directly(cursor)
+            {
+                statements.push(Statement::If {
+                    condition: Expression::IntLiteral(1),
+                    then_block: extract_body(cursor),
+                    else_block: None,
+                });
+                return CXChildVisit_Continue;
+            }
             // Compound statement (function body) - recurse into it
             CXChildVisit_Recurse
         }
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 3dc994d..e949161 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -1131,6 +1131,13 @@ fn switch_section_body(sections: &[SwitchSection]) -> Vec<Statement> {
     body
 }
 
+/// Check if a block has a declaration among its statements.
+pub(crate) fn declares_directly(block: CXCursor) -> bool {
+    children_of(block)
+        .into_iter()
+        .any(|child| unsafe { clang_getCursorKind(child) } == CXCursor_DeclStmt)
+}
+
 /// The children of a cursor.
 fn children_of(cursor: CXCursor) -> Vec<CXCursor> {
     extern "C" fn collect(
-- 
2.43.0


From b881f6d1cf80fdea26c3c9be8dc83f4dbaead766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:33 +0000
Subject: [PATCH 28/47] fix: a comparison passed as an int argument is
 converted

---
 crates/decy-codegen/src/expr_gen/calls.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index ca92c3b..07844ed 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -781,6 +781,16 @@ impl CodeGenerator {
                         if let HirExpression::CharLiteral(c) = arg {
                             return Some(format!("{}i32", *c as i32));
                         }
+                        // A comparison is an int in C and a bool in Rust
+                        if Self::is_boolean_expression(arg)
+                            || matches!(arg, HirExpression::Ternary { .. })
+                        {
+                            return Some(self.generate_expression_with_target_type(
+                                arg,
+                                ctx,
+                                Some(&HirType::Int),
+                            ));
+                        }
                     }
 
                     let is_string_param = param_type
-- 
2.43.0


From 458a3dc84d07f122f818cb75e65343db96fb189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:53 +0000
Subject: [PATCH 29/47] fix: jumps out of a labeled block carry a label

---
 crates/decy-codegen/src/lib.rs      |  7 ++-
 crates/decy-codegen/src/stmt_gen.rs | 89 +++++++++++++++++++++--------
 2 files changed, 70 insertions(+), 26 deletions(-)

diff --git a/crates/decy-codegen/src/lib.rs b/crates/decy-codegen/src/lib.rs
index 617fdc5..ac970df 100644
--- a/crates/decy-codegen/src/lib.rs
+++ b/crates/decy-codegen/src/lib.rs
@@ -65,9 +65,10 @@ struct TypeContext {
     globals: std::collections::HashSet<String>,
     // DECY-245: Track locals renamed to avoid shadowing statics (original_name -> renamed_name)
     renamed_locals: HashMap<String, String>,
-    // The block that `break` and `continue` leave, where it is not the innermost Rust loop
+    // What `break` leaves, and the jump that `continue` is, where they are not the innermost Rust
+    // loop's: inside a labeled block Rust wants every jump labeled
     break_label: Option<String>,
-    continue_label: Option<String>,
+    continue_jump: Option<String>,
 }
 
 impl TypeContext {
@@ -82,7 +83,7 @@ impl TypeContext {
             globals: std::collections::HashSet::new(),
             renamed_locals: HashMap::new(),
             break_label: None,
-            continue_label: None,
+            continue_jump: None,
         }
     }
 
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 3e9cfd9..8827aae 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -55,9 +55,8 @@ impl CodeGenerator {
                 Some(label) => format!("break {};", label),
                 None => "break;".to_string(),
             },
-            HirStatement::Continue => match &ctx.continue_label {
-                // The labeled block ends where C's `continue` goes: before the increment
-                Some(label) => format!("break {}; // continue;", label),
+            HirStatement::Continue => match &ctx.continue_jump {
+                Some(jump) => format!("{}; // continue;", jump),
                 None => "continue;".to_string(),
             },
             HirStatement::Assignment { target, value } => {
@@ -505,14 +504,17 @@ impl CodeGenerator {
                 }
             }
         };
-        code.push_str(&format!("while {} {{\n", cond_str));
-
         // Generate loop body
         let outer_break = ctx.break_label.take();
-        let outer_continue = ctx.continue_label.take();
+        let outer_continue = ctx.continue_jump.take();
+        if Self::continues_from_labeled_switch(body) {
+            ctx.continue_jump = Some("continue 'outer".to_string());
+            code.push_str("'outer: ");
+        }
+        code.push_str(&format!("while {} {{\n", cond_str));
         code.push_str(&self.generate_block(body, "    ", function_name, ctx, return_type));
         ctx.break_label = outer_break;
-        ctx.continue_label = outer_continue;
+        ctx.continue_jump = outer_continue;
 
         code.push('}');
         code
@@ -714,6 +716,24 @@ impl CodeGenerator {
             code.push('\n');
         }
 
+        // `continue` has to reach the increment, and the increment does not see what the body
+        // declares: then the body is a block of its own, which `continue` leaves.
+        let outer_break = ctx.break_label.take();
+        let outer_continue = ctx.continue_jump.take();
+        let continues = Self::contains_continue(body);
+        let body_block = !increment.is_empty() && (continues || Self::redeclares(body, ctx));
+        let body_label = body_block && continues;
+        if body_label {
+            ctx.continue_jump = Some("break 'next".to_string());
+            if Self::contains_break(body) {
+                ctx.break_label = Some("'outer".to_string());
+                code.push_str("'outer: ");
+            }
+        } else if Self::continues_from_labeled_switch(body) {
+            ctx.continue_jump = Some("continue 'outer".to_string());
+            code.push_str("'outer: ");
+        }
+
         // Generate loop: `loop {}` for None (for(;;)), `while cond {}` for Some
         if let Some(cond) = condition {
             code.push_str(&format!("while {} {{\n", self.generate_for_condition(cond, ctx)));
@@ -722,20 +742,15 @@ impl CodeGenerator {
         }
 
         // Generate loop body
-        let outer_break = ctx.break_label.take();
-        let outer_continue = ctx.continue_label.take();
-        if !increment.is_empty() && (Self::contains_continue(body) || Self::redeclares(body, ctx)) {
-            // `continue` has to reach the increment, and the increment does not see what the
-            // body declares: the body is a block of its own that `continue` leaves.
-            ctx.continue_label = Some("'next".to_string());
-            code.push_str("    'next: {\n");
-            code.push_str(&self.generate_block(body, "    ", function_name, ctx, return_type));
+        if body_block {
+            code.push_str(if body_label { "    'next: {\n" } else { "    {\n" });
+        }
+        code.push_str(&self.generate_block(body, "    ", function_name, ctx, return_type));
+        if body_block {
             code.push_str("    }\n");
-        } else {
-            code.push_str(&self.generate_block(body, "    ", function_name, ctx, return_type));
         }
         ctx.break_label = outer_break;
-        ctx.continue_label = outer_continue;
+        ctx.continue_jump = outer_continue;
 
         // DECY-224: Generate ALL increment statements at end of body
         for inc_stmt in increment {
@@ -765,7 +780,38 @@ impl CodeGenerator {
         }
     }
 
-    /// Check if the statements contain a `break` of the switch around them.
+    /// Check if a switch has a `break` inside a statement of a case: it leaves the switch, not a
+    /// loop around it, so the switch is a labeled block.
+    fn has_inner_break(
+        cases: &[decy_hir::SwitchCase],
+        default_case: Option<&[HirStatement]>,
+    ) -> bool {
+        cases.iter().any(|case| Self::contains_break(Self::until_break(&case.body)))
+            || default_case.is_some_and(|body| Self::contains_break(Self::until_break(body)))
+    }
+
+    /// Check if the body of a loop contains a `continue` of that loop inside a labeled switch.
+    fn continues_from_labeled_switch(stmts: &[HirStatement]) -> bool {
+        stmts.iter().any(|stmt| match stmt {
+            HirStatement::If { then_block, else_block, .. } => {
+                Self::continues_from_labeled_switch(then_block)
+                    || else_block.as_ref().is_some_and(|b| Self::continues_from_labeled_switch(b))
+            }
+            HirStatement::Switch { cases, default_case, .. } => {
+                let labeled = Self::has_inner_break(cases, default_case.as_deref());
+                cases.iter().any(|case| {
+                    (labeled && Self::contains_continue(&case.body))
+                        || Self::continues_from_labeled_switch(&case.body)
+                }) || default_case.as_ref().is_some_and(|b| {
+                    (labeled && Self::contains_continue(b))
+                        || Self::continues_from_labeled_switch(b)
+                })
+            }
+            _ => false,
+        })
+    }
+
+    /// Check if the statements contain a `break` of the switch or loop around them.
     fn contains_break(stmts: &[HirStatement]) -> bool {
         stmts.iter().any(|stmt| match stmt {
             HirStatement::Break => true,
@@ -789,10 +835,7 @@ impl CodeGenerator {
     ) -> String {
         let mut code = String::new();
 
-        // A `break` inside a statement of a case leaves the switch, not a loop around it
-        let inner_break =
-            cases.iter().any(|case| Self::contains_break(Self::until_break(&case.body)))
-                || default_case.is_some_and(|body| Self::contains_break(Self::until_break(body)));
+        let inner_break = Self::has_inner_break(cases, default_case);
         let outer_break = ctx.break_label.take();
         if inner_break {
             ctx.break_label = Some("'switch".to_string());
-- 
2.43.0


From 7aad76630ef6957a3300890642a44e4a23a95009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:04 +0000
Subject: [PATCH 30/47] fix: a comparison passed to a function of unknown
 signature is an int

---
 crates/decy-codegen/src/expr_gen/calls.rs | 24 ++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 07844ed..363fa41 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -781,16 +781,22 @@ impl CodeGenerator {
                         if let HirExpression::CharLiteral(c) = arg {
                             return Some(format!("{}i32", *c as i32));
                         }
-                        // A comparison is an int in C and a bool in Rust
-                        if Self::is_boolean_expression(arg)
-                            || matches!(arg, HirExpression::Ternary { .. })
-                        {
-                            return Some(self.generate_expression_with_target_type(
-                                arg,
-                                ctx,
-                                Some(&HirType::Int),
-                            ));
+                    }
+                    // A comparison is an int in C and a bool in Rust
+                    let is_truth_value = match arg {
+                        HirExpression::Ternary { then_expr, else_expr, .. } => {
+                            is_int_param
+                                || Self::is_boolean_expression(then_expr)
+                                || Self::is_boolean_expression(else_expr)
                         }
+                        _ => Self::is_boolean_expression(arg),
+                    };
+                    if (is_int_param || param_type.is_none()) && is_truth_value {
+                        return Some(self.generate_expression_with_target_type(
+                            arg,
+                            ctx,
+                            Some(&HirType::Int),
+                        ));
                     }
 
                     let is_string_param = param_type
-- 
2.43.0


From 09d19ed5233996a2009a0836bb3f6d54047d4678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:04 +0000
Subject: [PATCH 31/47] fix: a comparison returned from main is an int

---
 crates/decy-codegen/src/stmt_gen.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 8827aae..fa50e37 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -374,14 +374,17 @@ impl CodeGenerator {
         // return N; in main becomes std::process::exit(N);
         if function_name == Some("main") {
             if let Some(expr) = expr_opt {
-                let expr_code = self.generate_expression_with_context(expr, ctx);
                 // DECY-126: Check if expression type needs cast to i32
                 // exit() expects i32, but char/u8 expressions need casting
                 let expr_type = ctx.infer_expression_type(expr);
                 let needs_cast = matches!(expr_type, Some(HirType::Char));
                 if needs_cast {
+                    let expr_code = self.generate_expression_with_context(expr, ctx);
                     format!("std::process::exit({} as i32);", expr_code)
                 } else {
+                    // A comparison is an int in C and a bool in Rust
+                    let expr_code =
+                        self.generate_expression_with_target_type(expr, ctx, Some(&HirType::Int));
                     format!("std::process::exit({});", expr_code)
                 }
             } else {
-- 
2.43.0


From 1eda2c5b64563ba2e27b1101b93c7eb851f37623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:04 +0000
Subject: [PATCH 32/47] fix: functions without a body get a stub that compiles

---
 crates/decy-codegen/src/transform_gen.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/decy-codegen/src/transform_gen.rs b/crates/decy-codegen/src/transform_gen.rs
index d5649ff..02d9bf8 100644
--- a/crates/decy-codegen/src/transform_gen.rs
+++ b/crates/decy-codegen/src/transform_gen.rs
@@ -584,9 +584,9 @@ impl CodeGenerator {
 
         // Generate body statements if present
         if func.body().is_empty() {
-            // Generate stub body with return statement
+            // Generate stub body with return statement (main returns nothing in Rust)
             let return_stmt = self.generate_return(func.return_type());
-            if !return_stmt.is_empty() {
+            if !return_stmt.is_empty() && func.name() != "main" {
                 code.push_str(&return_stmt);
                 code.push('\n');
             }
@@ -678,8 +678,15 @@ impl CodeGenerator {
             }
         }
 
-        // Generate body statements
-        if !func.body().is_empty() {
+        // Generate body statements if present
+        if func.body().is_empty() {
+            // Generate stub body with return statement (main returns nothing in Rust)
+            let return_stmt = self.generate_return(func.return_type());
+            if !return_stmt.is_empty() && func.name() != "main" {
+                code.push_str(&return_stmt);
+                code.push('\n');
+            }
+        } else {
             for stmt in func.body() {
                 code.push_str("    ");
                 let stmt_code = self.generate_statement_with_context(
@@ -906,9 +913,9 @@ impl CodeGenerator {
 
         // Generate body statements if present
         if func.body().is_empty() {
-            // Generate stub body with return statement
+            // Generate stub body with return statement (main returns nothing in Rust)
             let return_stmt = self.generate_return(func.return_type());
-            if !return_stmt.is_empty() {
+            if !return_stmt.is_empty() && func.name() != "main" {
                 code.push_str(&return_stmt);
                 code.push('\n');
             }
-- 
2.43.0


From c26f3aa94b9b73a4ba01b9727b3eea99b97862a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:30 +0000
Subject: [PATCH 33/47] fix: a character constant in a switch on an int is a
 number

---
 crates/decy-codegen/src/stmt_gen.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index fa50e37..402f499 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -855,25 +855,22 @@ impl CodeGenerator {
 
         // DECY-209: Infer switch condition type for case pattern matching
         let condition_type = ctx.infer_expression_type(condition);
-        let condition_is_int = matches!(condition_type, Some(HirType::Int));
+        let condition_is_char = matches!(condition_type, Some(HirType::Char));
 
         // Generate each case
         for case in cases {
             if let Some(value_expr) = &case.value {
                 // Generate case pattern
-                // DECY-209/DECY-219: If condition is Int and case is CharLiteral,
+                // DECY-209/DECY-219: If condition is not a char and case is CharLiteral,
                 // generate the numeric byte value directly as the pattern.
                 // Rust match patterns don't allow casts like `b'0' as i32`,
                 // so we must use the numeric value (e.g., 48 for '0')
-                let case_pattern = if condition_is_int {
-                    if let HirExpression::CharLiteral(ch) = value_expr {
+                let case_pattern = match value_expr {
+                    HirExpression::CharLiteral(ch) if !condition_is_char => {
                         // Direct numeric value for the character
                         format!("{}", (*ch) as i32)
-                    } else {
-                        self.generate_expression_with_context(value_expr, ctx)
                     }
-                } else {
-                    self.generate_expression_with_context(value_expr, ctx)
+                    _ => self.generate_expression_with_context(value_expr, ctx),
                 };
                 code.push_str(&format!("    {} => {{\n", case_pattern));
 
-- 
2.43.0


From c57d2db06c6e2da1f74c4080cbd2d694a218fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:57 +0000
Subject: [PATCH 34/47] fix: the variables of a block in a switch end with the
 block

A block directly under a case label (or between the statements of a case)
was flattened into the case, so that what followed it saw its variables.
---
 crates/decy-parser/src/extract/statements.rs | 38 +++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index e949161..7e30ec8 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -1073,7 +1073,18 @@ enum SwitchLabel {
 /// The labels at one place in the body of a switch, and the statements up to the next labels.
 struct SwitchSection {
     labels: Vec<SwitchLabel>,
-    body: Vec<Statement>,
+    parts: Vec<SwitchPart>,
+}
+
+/// A statement in the body of a switch, or a block with declarations of its own (a scope).
+struct SwitchPart {
+    is_scope: bool,
+    statements: Vec<Statement>,
+}
+
+fn extract_switch_part(cursor: CXCursor) -> SwitchPart {
+    let is_block = unsafe { clang_getCursorKind(cursor) } == CXCursor_CompoundStmt;
+    SwitchPart { is_scope: is_block && declares_directly(cursor), statements: extract_body(cursor) }
 }
 
 /// Split the body of a switch at its labels.
@@ -1082,11 +1093,11 @@ fn extract_switch_sections(body: CXCursor) -> Vec<SwitchSection> {
     for child in children_of(body) {
         let kind = unsafe { clang_getCursorKind(child) };
         if kind == CXCursor_CaseStmt || kind == CXCursor_DefaultStmt {
-            let mut section = SwitchSection { labels: Vec::new(), body: Vec::new() };
+            let mut section = SwitchSection { labels: Vec::new(), parts: Vec::new() };
             extract_labeled_stmt(child, &mut section);
             sections.push(section);
         } else if let Some(section) = sections.last_mut() {
-            section.body.extend(extract_body(child));
+            section.parts.push(extract_switch_part(child));
         }
     }
     sections
@@ -1109,7 +1120,7 @@ fn extract_labeled_stmt(cursor: CXCursor, section: &mut SwitchSection) {
             extract_labeled_stmt(child, section);
         }
     } else {
-        section.body.extend(extract_body(cursor));
+        section.parts.push(extract_switch_part(cursor));
     }
 }
 
@@ -1117,8 +1128,25 @@ fn extract_labeled_stmt(cursor: CXCursor, section: &mut SwitchSection) {
 /// control leaves this one. A `break` at the end only ends the case.
 fn switch_section_body(sections: &[SwitchSection]) -> Vec<Statement> {
     let mut body: Vec<Statement> = Vec::new();
+    let mut scope_start: Option<usize> = None;
     for section in sections {
-        body.extend(section.body.iter().cloned());
+        for part in &section.parts {
+            // What follows a scope must not see its variables: `if (1) { ... }`
+            if !matches!(part.statements.as_slice(), [Statement::Break]) {
+                if let Some(start) = scope_start.take() {
+                    let then_block = body.split_off(start);
+                    body.push(Statement::If {
+                        condition: Expression::IntLiteral(1),
+                        then_block,
+                        else_block: None,
+                    });
+                }
+            }
+            if part.is_scope {
+                scope_start = Some(body.len());
+            }
+            body.extend(part.statements.iter().cloned());
+        }
         match body.last() {
             Some(Statement::Break) => {
                 body.pop();
-- 
2.43.0


From 7ecc4f5217c8983826e12de4bd16efb80ecfc7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:57 +0000
Subject: [PATCH 35/47] fix: a length parameter that changes stays a parameter,
 arrays written indirectly are mutable

A parameter was taken for the length of an array even when the body gives it
another value or hides it, and the names taken for lengths differed between
borrow generation and the dataflow graph. A slice was immutable although its
elements are written in a switch or inside an expression, or the array is passed
to a function that writes them.
---
 crates/decy-ownership/src/array_slice.rs |   2 +-
 crates/decy-ownership/src/borrow_gen.rs  |  36 ++--
 crates/decy-ownership/src/dataflow.rs    | 230 ++++++++++++++++++++---
 3 files changed, 223 insertions(+), 45 deletions(-)

diff --git a/crates/decy-ownership/src/array_slice.rs b/crates/decy-ownership/src/array_slice.rs
index 9de5446..901a07d 100644
--- a/crates/decy-ownership/src/array_slice.rs
+++ b/crates/decy-ownership/src/array_slice.rs
@@ -97,7 +97,7 @@ impl ArrayParameterTransformer {
                     if let HirType::Pointer(inner) = param.param_type() {
                         // Check if array is modified (need &mut) or read-only (need &)
                         // DECY-072: Check dataflow to determine mutability
-                        let is_mutable = dataflow.is_modified(param.name());
+                        let is_mutable = dataflow.is_mutable_array(param.name());
 
                         // Create slice type: &[T] or &mut [T]
                         // In HIR, a slice is represented as a Reference to an Array with size=None
diff --git a/crates/decy-ownership/src/borrow_gen.rs b/crates/decy-ownership/src/borrow_gen.rs
index a0ce4ed..80ff652 100644
--- a/crates/decy-ownership/src/borrow_gen.rs
+++ b/crates/decy-ownership/src/borrow_gen.rs
@@ -150,8 +150,9 @@ impl BorrowGenerator {
         let mut transformed_params = Vec::new();
         let mut length_params_to_remove = HashMap::new(); // length_param_name -> array_param_name
         let mut skip_next = false;
+        let array_params = dataflow_graph.get_array_parameters();
 
-        for (i, param) in params.iter().enumerate() {
+        for param in params {
             if skip_next {
                 skip_next = false;
                 continue;
@@ -178,25 +179,14 @@ impl BorrowGenerator {
                 );
                 transformed_params.push(param.with_type(slice_type));
 
-                // DECY-113: Check if next parameter is the length parameter
-                // Only treat it as length if it has a length-like name
-                if i + 1 < params.len() {
-                    let next_param = &params[i + 1];
-                    if matches!(next_param.param_type(), HirType::Int) {
-                        let param_name = next_param.name().to_lowercase();
-                        // Only skip/transform if the name suggests it's a length/size parameter
-                        if param_name.contains("len")
-                            || param_name.contains("size")
-                            || param_name.contains("count")
-                            || param_name == "n"
-                            || param_name == "num"
-                        {
-                            // This is the length parameter - skip it and record the mapping
-                            length_params_to_remove
-                                .insert(next_param.name().to_string(), param.name().to_string());
-                            skip_next = true;
-                        }
-                    }
+                // DECY-113: Skip the length parameter of the array and record the mapping
+                let length_param = array_params
+                    .iter()
+                    .find(|(array, _)| array == param.name())
+                    .and_then(|(_, length)| length.clone());
+                if let Some(length) = length_param {
+                    length_params_to_remove.insert(length, param.name().to_string());
+                    skip_next = true;
                 }
             } else {
                 // DECY-184: Check if parameter uses pointer arithmetic
@@ -248,7 +238,11 @@ impl BorrowGenerator {
         var_name: &str,
         dataflow_graph: &crate::dataflow::DataflowGraph,
     ) -> bool {
-        dataflow_graph.body().iter().any(|stmt| self.statement_mutates_variable(stmt, var_name))
+        dataflow_graph.is_mutable_array(var_name)
+            || dataflow_graph
+                .body()
+                .iter()
+                .any(|stmt| self.statement_mutates_variable(stmt, var_name))
     }
 
     /// Recursively check if a statement mutates a variable.
diff --git a/crates/decy-ownership/src/dataflow.rs b/crates/decy-ownership/src/dataflow.rs
index db876cc..42ab789 100644
--- a/crates/decy-ownership/src/dataflow.rs
+++ b/crates/decy-ownership/src/dataflow.rs
@@ -3,7 +3,7 @@
 //! This module builds a dataflow graph that tracks how pointers flow through
 //! functions, enabling detection of ownership patterns and use-after-free issues.
 
-use decy_hir::{HirExpression, HirFunction, HirStatement, HirType};
+use decy_hir::{BinaryOperator, HirExpression, HirFunction, HirStatement, HirType, UnaryOperator};
 use std::collections::{HashMap, HashSet};
 
 /// Represents a node in the dataflow graph (a pointer variable or operation).
@@ -127,6 +127,8 @@ impl DataflowGraph {
                             || next_name.contains("count")
                             || next_name.contains("num")
                             || next_name == "n")
+                        && !self.is_reassigned(next_param.name())
+                        && !self.is_reassigned(param.name())
                     {
                         Some(next_param.name().to_string())
                     } else {
@@ -143,6 +145,75 @@ impl DataflowGraph {
         result
     }
 
+    /// Check if the function body gives a parameter another value (or hides it behind a variable
+    /// of the same name), so that it does not stand for the array or its length throughout.
+    fn is_reassigned(&self, var: &str) -> bool {
+        self.body.iter().any(|stmt| Self::statement_reassigns(stmt, var))
+    }
+
+    fn statement_reassigns(stmt: &HirStatement, var: &str) -> bool {
+        let here = match stmt {
+            HirStatement::VariableDeclaration { name, .. } => name == var,
+            HirStatement::Assignment { target, .. } => target == var,
+            _ => false,
+        };
+        here || Self::statement_expressions(stmt)
+            .iter()
+            .any(|expr| Self::expression_reassigns(expr, var))
+            || Self::statement_blocks(stmt)
+                .iter()
+                .any(|block| block.iter().any(|s| Self::statement_reassigns(s, var)))
+    }
+
+    fn expression_reassigns(expr: &HirExpression, var: &str) -> bool {
+        let here = match expr {
+            // n++, --n, &n
+            HirExpression::PostIncrement { operand }
+            | HirExpression::PreIncrement { operand }
+            | HirExpression::PostDecrement { operand }
+            | HirExpression::PreDecrement { operand }
+            | HirExpression::AddressOf(operand) => Self::is_variable(operand, var),
+            HirExpression::UnaryOp { op, operand } => {
+                !matches!(
+                    op,
+                    UnaryOperator::Minus | UnaryOperator::LogicalNot | UnaryOperator::BitwiseNot
+                ) && Self::is_variable(operand, var)
+            }
+            // n = value inside an expression
+            HirExpression::BinaryOp { op: BinaryOperator::Assign, left, .. } => {
+                Self::is_variable(left, var)
+            }
+            _ => false,
+        };
+        here || Self::sub_expressions(expr).iter().any(|e| Self::expression_reassigns(e, var))
+    }
+
+    /// Check if an array parameter has to be a mutable slice: the function writes to an element,
+    /// or passes the array, unless it points to const, to a function that may do so.
+    pub fn is_mutable_array(&self, var: &str) -> bool {
+        let pointee_is_const =
+            self.parameters.iter().any(|param| param.name() == var && param.is_pointee_const());
+        self.is_modified(var)
+            || (!pointee_is_const && self.body.iter().any(|stmt| Self::statement_passes(stmt, var)))
+    }
+
+    fn statement_passes(stmt: &HirStatement, var: &str) -> bool {
+        Self::statement_expressions(stmt).iter().any(|expr| Self::expression_passes(expr, var))
+            || Self::statement_blocks(stmt)
+                .iter()
+                .any(|block| block.iter().any(|s| Self::statement_passes(s, var)))
+    }
+
+    fn expression_passes(expr: &HirExpression, var: &str) -> bool {
+        let here = match expr {
+            HirExpression::FunctionCall { arguments, .. } => {
+                arguments.iter().any(|arg| Self::is_variable(arg, var))
+            }
+            _ => false,
+        };
+        here || Self::sub_expressions(expr).iter().any(|e| Self::expression_passes(e, var))
+    }
+
     /// Check if a parameter is modified (mutated) in the function body.
     /// Returns true if the parameter is assigned to or passed as mutable reference.
     pub fn is_modified(&self, var: &str) -> bool {
@@ -156,35 +227,148 @@ impl DataflowGraph {
 
     /// Check if a statement modifies a variable.
     fn statement_modifies_var(&self, stmt: &HirStatement, var: &str) -> bool {
+        let here = match stmt {
+            // arr[i] = value modifies arr
+            HirStatement::ArrayIndexAssignment { array, .. } => Self::is_variable(array, var),
+            // *ptr = value modifies ptr's contents
+            HirStatement::DerefAssignment { target, .. } => Self::is_variable(target, var),
+            _ => false,
+        };
+        here || Self::statement_expressions(stmt)
+            .iter()
+            .any(|expr| Self::expression_modifies_var(expr, var))
+            || Self::statement_blocks(stmt)
+                .iter()
+                .any(|block| block.iter().any(|s| self.statement_modifies_var(s, var)))
+    }
+
+    /// Check if an expression modifies what a variable points to.
+    fn expression_modifies_var(expr: &HirExpression, var: &str) -> bool {
+        let here = match expr {
+            // arr[i]++, (*ptr)--
+            HirExpression::PostIncrement { operand }
+            | HirExpression::PreIncrement { operand }
+            | HirExpression::PostDecrement { operand }
+            | HirExpression::PreDecrement { operand } => Self::is_element(operand, var),
+            HirExpression::UnaryOp { op, operand } => {
+                !matches!(
+                    op,
+                    UnaryOperator::Minus | UnaryOperator::LogicalNot | UnaryOperator::BitwiseNot
+                ) && Self::is_element(operand, var)
+            }
+            // arr[i] = value inside an expression
+            HirExpression::BinaryOp { op: BinaryOperator::Assign, left, .. } => {
+                Self::is_element(left, var)
+            }
+            _ => false,
+        };
+        here || Self::sub_expressions(expr).iter().any(|e| Self::expression_modifies_var(e, var))
+    }
+
+    fn is_variable(expr: &HirExpression, var: &str) -> bool {
+        matches!(expr, HirExpression::Variable(name) if name == var)
+    }
+
+    fn is_element(expr: &HirExpression, var: &str) -> bool {
+        match expr {
+            HirExpression::ArrayIndex { array, .. } => Self::is_variable(array, var),
+            HirExpression::Dereference(inner) => Self::is_variable(inner, var),
+            _ => false,
+        }
+    }
+
+    /// The expressions directly inside a statement.
+    fn statement_expressions(stmt: &HirStatement) -> Vec<&HirExpression> {
         match stmt {
-            HirStatement::ArrayIndexAssignment { array, .. } => {
-                // arr[i] = value modifies arr
-                if let HirExpression::Variable(name) = &**array {
-                    if name == var {
-                        return true;
-                    }
+            HirStatement::VariableDeclaration { initializer, .. } => initializer.iter().collect(),
+            HirStatement::Return(value) => value.iter().collect(),
+            HirStatement::If { condition, .. }
+            | HirStatement::While { condition, .. }
+            | HirStatement::Switch { condition, .. } => vec![condition],
+            HirStatement::For { condition, .. } => condition.iter().collect(),
+            HirStatement::Assignment { value, .. } => vec![value],
+            HirStatement::DerefAssignment { target, value } => vec![target, value],
+            HirStatement::ArrayIndexAssignment { array, index, value } => {
+                vec![array, index, value]
+            }
+            HirStatement::FieldAssignment { object, value, .. } => vec![object, value],
+            HirStatement::Free { pointer } => vec![pointer],
+            HirStatement::Expression(expr) => vec![expr],
+            HirStatement::Break | HirStatement::Continue | HirStatement::InlineAsm { .. } => {
+                vec![]
+            }
+        }
+    }
+
+    /// The statement lists directly inside a statement.
+    fn statement_blocks(stmt: &HirStatement) -> Vec<&[HirStatement]> {
+        match stmt {
+            HirStatement::If { then_block, else_block, .. } => {
+                let mut blocks = vec![then_block.as_slice()];
+                if let Some(block) = else_block {
+                    blocks.push(block.as_slice());
                 }
-                false
+                blocks
             }
-            HirStatement::DerefAssignment { target, .. } => {
-                // *ptr = value modifies ptr's contents
-                if let HirExpression::Variable(name) = target {
-                    if name == var {
-                        return true;
-                    }
+            HirStatement::While { body, .. } => vec![body.as_slice()],
+            HirStatement::For { init, increment, body, .. } => {
+                vec![init.as_slice(), increment.as_slice(), body.as_slice()]
+            }
+            HirStatement::Switch { cases, default_case, .. } => {
+                let mut blocks = Vec::new();
+                for case in cases {
+                    blocks.push(case.body.as_slice());
                 }
-                false
+                if let Some(block) = default_case {
+                    blocks.push(block.as_slice());
+                }
+                blocks
             }
-            HirStatement::If { then_block, else_block, .. } => {
-                then_block.iter().any(|s| self.statement_modifies_var(s, var))
-                    || else_block
-                        .as_ref()
-                        .is_some_and(|blk| blk.iter().any(|s| self.statement_modifies_var(s, var)))
+            _ => vec![],
+        }
+    }
+
+    /// The expressions directly inside an expression.
+    fn sub_expressions(expr: &HirExpression) -> Vec<&HirExpression> {
+        match expr {
+            HirExpression::BinaryOp { left, right, .. } => vec![left, right],
+            HirExpression::Dereference(inner)
+            | HirExpression::AddressOf(inner)
+            | HirExpression::IsNotNull(inner) => vec![inner],
+            HirExpression::UnaryOp { operand, .. }
+            | HirExpression::PostIncrement { operand }
+            | HirExpression::PreIncrement { operand }
+            | HirExpression::PostDecrement { operand }
+            | HirExpression::PreDecrement { operand }
+            | HirExpression::CxxDelete { operand } => vec![operand],
+            HirExpression::FunctionCall { arguments, .. }
+            | HirExpression::CxxNew { arguments, .. } => arguments.iter().collect(),
+            HirExpression::FieldAccess { object, .. } => vec![object],
+            HirExpression::PointerFieldAccess { pointer, .. } => vec![pointer],
+            HirExpression::ArrayIndex { array, index } => vec![array, index],
+            HirExpression::SliceIndex { slice, index, .. } => vec![slice, index],
+            HirExpression::Cast { expr, .. } => vec![expr],
+            HirExpression::CompoundLiteral { initializers, .. } => initializers.iter().collect(),
+            HirExpression::Calloc { count, .. } => vec![count],
+            HirExpression::Malloc { size } => vec![size],
+            HirExpression::Realloc { pointer, new_size } => vec![pointer, new_size],
+            HirExpression::StringMethodCall { receiver, arguments, .. } => {
+                let mut expressions: Vec<&HirExpression> = vec![receiver];
+                for argument in arguments {
+                    expressions.push(argument);
+                }
+                expressions
             }
-            HirStatement::While { body, .. } | HirStatement::For { body, .. } => {
-                body.iter().any(|s| self.statement_modifies_var(s, var))
+            HirExpression::Ternary { condition, then_expr, else_expr } => {
+                vec![condition, then_expr, else_expr]
             }
-            _ => false,
+            HirExpression::IntLiteral(_)
+            | HirExpression::FloatLiteral(_)
+            | HirExpression::StringLiteral(_)
+            | HirExpression::CharLiteral(_)
+            | HirExpression::Variable(_)
+            | HirExpression::Sizeof { .. }
+            | HirExpression::NullLiteral => vec![],
         }
     }
 
-- 
2.43.0


From 4e8a2ab9d6ca946b1ffd11961935c2f11bb874bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:57 +0000
Subject: [PATCH 36/47] fix: *(p - i) is the element at -i, not at i

---
 crates/decy-ownership/src/borrow_gen.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/decy-ownership/src/borrow_gen.rs b/crates/decy-ownership/src/borrow_gen.rs
index 80ff652..e959d06 100644
--- a/crates/decy-ownership/src/borrow_gen.rs
+++ b/crates/decy-ownership/src/borrow_gen.rs
@@ -560,12 +560,20 @@ impl BorrowGenerator {
                                 ..
                             } = &inference.kind
                             {
-                                // Transform the offset expression (same for both add and subtract)
-                                let index_expr = self.transform_expression_with_length_replacement(
-                                    right,
-                                    inferences,
-                                    length_params_to_remove,
-                                );
+                                // Transform the offset expression
+                                let mut index_expr = self
+                                    .transform_expression_with_length_replacement(
+                                        right,
+                                        inferences,
+                                        length_params_to_remove,
+                                    );
+                                // *(ptr - offset) is the element at -offset
+                                if matches!(op, BinaryOperator::Subtract) {
+                                    index_expr = HirExpression::UnaryOp {
+                                        op: decy_hir::UnaryOperator::Minus,
+                                        operand: Box::new(index_expr),
+                                    };
+                                }
 
                                 return HirExpression::SliceIndex {
                                     slice: Box::new(HirExpression::Variable(var_name.clone())),
-- 
2.43.0


From 8fdb307d89728904de10762b54a19f72d2c18069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:57 +0000
Subject: [PATCH 37/47] fix: length parameters in the arguments of new and
 delete

---
 crates/decy-ownership/src/borrow_gen.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/decy-ownership/src/borrow_gen.rs b/crates/decy-ownership/src/borrow_gen.rs
index e959d06..0b15847 100644
--- a/crates/decy-ownership/src/borrow_gen.rs
+++ b/crates/decy-ownership/src/borrow_gen.rs
@@ -804,8 +804,27 @@ impl BorrowGenerator {
                     length_params_to_remove,
                 )),
             },
-            // DECY-207: C++ new/delete - pass through (codegen handles transformation)
-            HirExpression::CxxNew { .. } | HirExpression::CxxDelete { .. } => expr.clone(),
+            // DECY-207: C++ new/delete - transform the sub-expressions
+            HirExpression::CxxNew { allocated_type, arguments } => HirExpression::CxxNew {
+                allocated_type: allocated_type.clone(),
+                arguments: arguments
+                    .iter()
+                    .map(|arg| {
+                        self.transform_expression_with_length_replacement(
+                            arg,
+                            inferences,
+                            length_params_to_remove,
+                        )
+                    })
+                    .collect(),
+            },
+            HirExpression::CxxDelete { operand } => HirExpression::CxxDelete {
+                operand: Box::new(self.transform_expression_with_length_replacement(
+                    operand,
+                    inferences,
+                    length_params_to_remove,
+                )),
+            },
             // Leaf expressions - no transformation needed
             HirExpression::IntLiteral(_)
             | HirExpression::FloatLiteral(_)
-- 
2.43.0


From 4abad844c278cd7b9312a869c0f73134e6882c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:53 +0000
Subject: [PATCH 38/47] fix: replace removed length parameters everywhere in
 the body of a slice function

---
 crates/decy-ownership/src/array_slice.rs | 122 ++++++++++++++++++++++-
 1 file changed, 118 insertions(+), 4 deletions(-)

diff --git a/crates/decy-ownership/src/array_slice.rs b/crates/decy-ownership/src/array_slice.rs
index 901a07d..0748762 100644
--- a/crates/decy-ownership/src/array_slice.rs
+++ b/crates/decy-ownership/src/array_slice.rs
@@ -197,8 +197,42 @@ impl ArrayParameterTransformer {
             HirStatement::Expression(expr) => {
                 HirStatement::Expression(Self::transform_expression(expr, array_param_map))
             }
-            // Other statements pass through unchanged
-            _ => stmt.clone(),
+            HirStatement::Switch { condition, cases, default_case } => HirStatement::Switch {
+                condition: Self::transform_expression(condition, array_param_map),
+                cases: cases
+                    .iter()
+                    .map(|case| decy_hir::SwitchCase {
+                        value: case.value.clone(),
+                        body: case
+                            .body
+                            .iter()
+                            .map(|s| Self::transform_statement(s, array_param_map))
+                            .collect(),
+                    })
+                    .collect(),
+                default_case: default_case.as_ref().map(|block| {
+                    block.iter().map(|s| Self::transform_statement(s, array_param_map)).collect()
+                }),
+            },
+            HirStatement::DerefAssignment { target, value } => HirStatement::DerefAssignment {
+                target: Self::transform_expression(target, array_param_map),
+                value: Self::transform_expression(value, array_param_map),
+            },
+            HirStatement::FieldAssignment { object, field, value } => {
+                HirStatement::FieldAssignment {
+                    object: Self::transform_expression(object, array_param_map),
+                    field: field.clone(),
+                    value: Self::transform_expression(value, array_param_map),
+                }
+            }
+            HirStatement::Free { pointer } => {
+                HirStatement::Free { pointer: Self::transform_expression(pointer, array_param_map) }
+            }
+            // Statements without expressions pass through unchanged
+            HirStatement::Return(None)
+            | HirStatement::Break
+            | HirStatement::Continue
+            | HirStatement::InlineAsm { .. } => stmt.clone(),
         }
     }
 
@@ -259,8 +293,88 @@ impl ArrayParameterTransformer {
             HirExpression::AddressOf(inner) => HirExpression::AddressOf(Box::new(
                 Self::transform_expression(inner, array_param_map),
             )),
-            // Literals and other expressions pass through unchanged
-            _ => expr.clone(),
+            HirExpression::Ternary { condition, then_expr, else_expr } => HirExpression::Ternary {
+                condition: Box::new(Self::transform_expression(condition, array_param_map)),
+                then_expr: Box::new(Self::transform_expression(then_expr, array_param_map)),
+                else_expr: Box::new(Self::transform_expression(else_expr, array_param_map)),
+            },
+            HirExpression::SliceIndex { slice, index, element_type } => HirExpression::SliceIndex {
+                slice: Box::new(Self::transform_expression(slice, array_param_map)),
+                index: Box::new(Self::transform_expression(index, array_param_map)),
+                element_type: element_type.clone(),
+            },
+            HirExpression::FieldAccess { object, field } => HirExpression::FieldAccess {
+                object: Box::new(Self::transform_expression(object, array_param_map)),
+                field: field.clone(),
+            },
+            HirExpression::PointerFieldAccess { pointer, field } => {
+                HirExpression::PointerFieldAccess {
+                    pointer: Box::new(Self::transform_expression(pointer, array_param_map)),
+                    field: field.clone(),
+                }
+            }
+            HirExpression::StringMethodCall { receiver, method, arguments } => {
+                HirExpression::StringMethodCall {
+                    receiver: Box::new(Self::transform_expression(receiver, array_param_map)),
+                    method: method.clone(),
+                    arguments: arguments
+                        .iter()
+                        .map(|arg| Self::transform_expression(arg, array_param_map))
+                        .collect(),
+                }
+            }
+            HirExpression::CompoundLiteral { literal_type, initializers } => {
+                HirExpression::CompoundLiteral {
+                    literal_type: literal_type.clone(),
+                    initializers: initializers
+                        .iter()
+                        .map(|init| Self::transform_expression(init, array_param_map))
+                        .collect(),
+                }
+            }
+            HirExpression::IsNotNull(inner) => HirExpression::IsNotNull(Box::new(
+                Self::transform_expression(inner, array_param_map),
+            )),
+            HirExpression::Calloc { count, element_type } => HirExpression::Calloc {
+                count: Box::new(Self::transform_expression(count, array_param_map)),
+                element_type: element_type.clone(),
+            },
+            HirExpression::Malloc { size } => HirExpression::Malloc {
+                size: Box::new(Self::transform_expression(size, array_param_map)),
+            },
+            HirExpression::Realloc { pointer, new_size } => HirExpression::Realloc {
+                pointer: Box::new(Self::transform_expression(pointer, array_param_map)),
+                new_size: Box::new(Self::transform_expression(new_size, array_param_map)),
+            },
+            HirExpression::PostIncrement { operand } => HirExpression::PostIncrement {
+                operand: Box::new(Self::transform_expression(operand, array_param_map)),
+            },
+            HirExpression::PreIncrement { operand } => HirExpression::PreIncrement {
+                operand: Box::new(Self::transform_expression(operand, array_param_map)),
+            },
+            HirExpression::PostDecrement { operand } => HirExpression::PostDecrement {
+                operand: Box::new(Self::transform_expression(operand, array_param_map)),
+            },
+            HirExpression::PreDecrement { operand } => HirExpression::PreDecrement {
+                operand: Box::new(Self::transform_expression(operand, array_param_map)),
+            },
+            HirExpression::CxxDelete { operand } => HirExpression::CxxDelete {
+                operand: Box::new(Self::transform_expression(operand, array_param_map)),
+            },
+            HirExpression::CxxNew { allocated_type, arguments } => HirExpression::CxxNew {
+                allocated_type: allocated_type.clone(),
+                arguments: arguments
+                    .iter()
+                    .map(|arg| Self::transform_expression(arg, array_param_map))
+                    .collect(),
+            },
+            // Literals pass through unchanged
+            HirExpression::IntLiteral(_)
+            | HirExpression::FloatLiteral(_)
+            | HirExpression::StringLiteral(_)
+            | HirExpression::CharLiteral(_)
+            | HirExpression::Sizeof { .. }
+            | HirExpression::NullLiteral => expr.clone(),
         }
     }
 }
-- 
2.43.0


From a9f769cd9cea2f8125bc8367fc92e5340b60b6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:25 +0000
Subject: [PATCH 39/47] fix: calls leave out the length argument exactly when
 the parameter was removed

---
 crates/decy-core/src/lib.rs | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index bf1c555..4a2157c 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -842,31 +842,21 @@ fn global_definitions(
     definitions
 }
 
+/// The (array, length) argument positions of each function whose length parameters the
+/// ownership transformation removed.
 fn build_slice_func_arg_mappings(
     hir_functions: &[HirFunction],
+    transformed_functions: &[(HirFunction, decy_ownership::lifetime_gen::AnnotatedSignature)],
 ) -> Vec<(String, Vec<(usize, usize)>)> {
     hir_functions
         .iter()
-        .filter_map(|func| {
+        .zip(transformed_functions)
+        .filter_map(|(func, (transformed, _))| {
             let mut mappings = Vec::new();
-            let params = func.parameters();
-
-            for (i, param) in params.iter().enumerate() {
-                if matches!(param.param_type(), decy_hir::HirType::Pointer(_))
-                    && i + 1 < params.len()
-                {
-                    let next_param = &params[i + 1];
-                    if matches!(next_param.param_type(), decy_hir::HirType::Int) {
-                        let param_name = next_param.name().to_lowercase();
-                        if param_name.contains("len")
-                            || param_name.contains("size")
-                            || param_name.contains("count")
-                            || param_name == "n"
-                            || param_name == "num"
-                        {
-                            mappings.push((i, i + 1));
-                        }
-                    }
+
+            for (i, param) in func.parameters().iter().enumerate().skip(1) {
+                if !transformed.parameters().iter().any(|p| p.name() == param.name()) {
+                    mappings.push((i - 1, i));
                 }
             }
 
@@ -1188,12 +1178,12 @@ pub fn transpile_with_includes(c_code: &str, base_dir: Option<&Path>) -> Result<
         })
         .collect();
 
-    // DECY-116: Build slice function arg mappings BEFORE transformation (while we still have original params)
-    let slice_func_args = build_slice_func_arg_mappings(&hir_functions);
-
     // Step 3: Analyze ownership and lifetimes
     let transformed_functions: Vec<_> =
-        hir_functions.into_iter().map(transform_function_with_ownership).collect();
+        hir_functions.iter().cloned().map(transform_function_with_ownership).collect();
+
+    // DECY-116: Build slice function arg mappings from the parameters that were removed
+    let slice_func_args = build_slice_func_arg_mappings(&hir_functions, &transformed_functions);
 
     // Step 4: Generate Rust code with lifetime annotations
     let code_generator = CodeGenerator::new();
@@ -1285,7 +1275,6 @@ pub fn transpile_with_includes(c_code: &str, base_dir: Option<&Path>) -> Result<
         .collect();
 
     // Generate functions with struct definitions for field type awareness
-    // Note: slice_func_args was built at line 814 BEFORE transformation to capture original params
     // DECY-220/233: Pass global_vars for unsafe access tracking and type inference
     for (func, annotated_sig) in &transformed_functions {
         let generated = code_generator.generate_function_with_lifetimes_and_structs(
-- 
2.43.0


From 8abdc674763b0fd48dabfb32b5b246a5ebc877b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:38 +0000
Subject: [PATCH 40/47] fix: arr[i] += value makes the slice mutable

---
 crates/decy-ownership/src/dataflow.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/decy-ownership/src/dataflow.rs b/crates/decy-ownership/src/dataflow.rs
index 42ab789..43292e8 100644
--- a/crates/decy-ownership/src/dataflow.rs
+++ b/crates/decy-ownership/src/dataflow.rs
@@ -230,8 +230,10 @@ impl DataflowGraph {
         let here = match stmt {
             // arr[i] = value modifies arr
             HirStatement::ArrayIndexAssignment { array, .. } => Self::is_variable(array, var),
-            // *ptr = value modifies ptr's contents
-            HirStatement::DerefAssignment { target, .. } => Self::is_variable(target, var),
+            // *ptr = value modifies ptr's contents, and so does arr[i] += value
+            HirStatement::DerefAssignment { target, .. } => {
+                Self::is_variable(target, var) || Self::is_element(target, var)
+            }
             _ => false,
         };
         here || Self::statement_expressions(stmt)
-- 
2.43.0


From c79950a96dcb0ff2ec3f654682c7b0a2fb46c04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:41 +0000
Subject: [PATCH 41/47] fix: calls pass as much of an array as the length
 argument says

The length argument was dropped, so the callee saw the whole array; arguments
after it were matched with the wrong parameters; and arrays were passed by shared
reference, or by value, to parameters that are mutable slices.
---
 crates/decy-codegen/src/expr_gen/calls.rs | 120 ++++++++++++++++++++--
 1 file changed, 113 insertions(+), 7 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 363fa41..333dfae 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -655,6 +655,45 @@ impl CodeGenerator {
             .map(|mappings| mappings.iter().map(|(arr_idx, _)| *arr_idx).collect())
             .unwrap_or_default();
 
+        // The position of an argument among the parameters that remain
+        let param_index =
+            |i: usize| i - len_indices_to_skip.iter().filter(|len_idx| **len_idx < i).count();
+        // An array goes to a slice parameter, with or without a length that was removed
+        let is_array = |i: usize| {
+            array_indices.contains(&i)
+                || matches!(
+                    (ctx.get_function_param_type(function, param_index(i)), &arguments[i]),
+                    (Some(HirType::Reference { inner, .. }), HirExpression::Variable(name))
+                        if matches!(**inner, HirType::Array { .. } | HirType::Vec(_))
+                            && matches!(ctx.get_type(name), Some(HirType::Array { .. }))
+                )
+        };
+        let is_mut_array = |i: usize| {
+            is_array(i)
+                && matches!(
+                    ctx.get_function_param_type(function, param_index(i)),
+                    Some(HirType::Reference { mutable: true, .. })
+                )
+        };
+        // What is read from a mutably borrowed array is read before the call
+        let mut_arrays: Vec<&String> = arguments
+            .iter()
+            .enumerate()
+            .filter_map(|(i, arg)| match arg {
+                HirExpression::Variable(name) if is_mut_array(i) => Some(name),
+                _ => None,
+            })
+            .collect();
+        let mut bindings: Vec<String> = Vec::new();
+        let mut bind = |code: String| {
+            if !mut_arrays.iter().any(|name| code.contains(name.as_str())) {
+                return code;
+            }
+            let name = format!("__arg{}", bindings.len());
+            bindings.push(format!("let {} = {};", name, code));
+            name
+        };
+
         let args: Vec<String> = arguments
             .iter()
             .enumerate()
@@ -663,10 +702,28 @@ impl CodeGenerator {
                     return None;
                 }
 
-                if array_indices.contains(&i) {
-                    let arg_code = self.generate_expression_with_context(arg, ctx);
-                    return Some(format!("&{}", arg_code));
+                if is_array(i) {
+                    let length = slice_mappings
+                        .and_then(|mappings| mappings.iter().find(|(arr_idx, _)| *arr_idx == i))
+                        .and_then(|(_, len_idx)| arguments.get(*len_idx));
+                    let borrow = if is_mut_array(i) { "&mut " } else { "&" };
+                    return Some(match self.gen_slice_length(arg, length, ctx) {
+                        Some(length_code) => format!(
+                            "{}{}[..{}]",
+                            borrow,
+                            self.generate_expression_with_context(arg, ctx),
+                            bind(length_code)
+                        ),
+                        None if Self::is_slice_variable(arg, ctx) => {
+                            self.generate_expression_with_context(arg, ctx)
+                        }
+                        None => {
+                            let arg_code = self.generate_expression_with_context(arg, ctx);
+                            format!("{}{}", borrow, arg_code)
+                        }
+                    });
                 }
+                let i = param_index(i);
 
                 let is_address_of = matches!(arg, HirExpression::AddressOf(_))
                     || matches!(
@@ -792,11 +849,11 @@ impl CodeGenerator {
                         _ => Self::is_boolean_expression(arg),
                     };
                     if (is_int_param || param_type.is_none()) && is_truth_value {
-                        return Some(self.generate_expression_with_target_type(
+                        return Some(bind(self.generate_expression_with_target_type(
                             arg,
                             ctx,
                             Some(&HirType::Int),
-                        ));
+                        )));
                     }
 
                     let is_string_param = param_type
@@ -816,7 +873,7 @@ impl CodeGenerator {
                         }
                     }
 
-                    Some(self.generate_expression_with_context(arg, ctx))
+                    Some(bind(self.generate_expression_with_context(arg, ctx)))
                 }
             })
             .collect();
@@ -829,6 +886,55 @@ impl CodeGenerator {
             "in" => "c_in",
             _ => function,
         };
-        format!("{}({})", safe_function, args.join(", "))
+        let call = format!("{}({})", safe_function, args.join(", "));
+        if bindings.is_empty() {
+            call
+        } else {
+            format!("{{ {} {} }}", bindings.join(" "), call)
+        }
+    }
+
+    /// Check for a variable that already is a slice.
+    fn is_slice_variable(arg: &HirExpression, ctx: &TypeContext) -> bool {
+        let HirExpression::Variable(name) = arg else {
+            return false;
+        };
+        match ctx.get_type(name) {
+            Some(HirType::Reference { inner, .. }) => {
+                matches!(**inner, HirType::Array { .. } | HirType::Vec(_))
+            }
+            _ => false,
+        }
+    }
+
+    /// How much of an array is passed to a function that takes a slice, if it is not all of it.
+    fn gen_slice_length(
+        &self,
+        array: &HirExpression,
+        length: Option<&HirExpression>,
+        ctx: &TypeContext,
+    ) -> Option<String> {
+        let (HirExpression::Variable(name), Some(length)) = (array, length) else {
+            return None;
+        };
+        let size = match ctx.get_type(name) {
+            Some(HirType::Array { size, .. }) => *size,
+            Some(HirType::Vec(_)) => None,
+            _ if Self::is_slice_variable(array, ctx) => None,
+            _ => return None,
+        };
+        let is_whole = match length {
+            HirExpression::IntLiteral(value) => {
+                size.is_some_and(|size| usize::try_from(*value) == Ok(size))
+            }
+            HirExpression::StringMethodCall { receiver, method, .. } => {
+                method == "len" && **receiver == *array
+            }
+            _ => false,
+        };
+        if is_whole {
+            return None;
+        }
+        Some(format!("({}) as usize", self.generate_expression_with_context(length, ctx)))
     }
 }
-- 
2.43.0


From 3b04579ecd24a9217e614aef919748cf49789e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:16 +0000
Subject: [PATCH 42/47] fix: literal braces, left alignment and character width
 in printf formats

---
 crates/decy-codegen/src/expr_gen/misc.rs | 38 ++++++++++++++++++++----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 5d7fc35..ffc0bed 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -784,13 +784,23 @@ impl CodeGenerator {
                 let mut precision = String::new();
 
                 // Parse flags: -, +, space, #, 0
+                let mut left_align = false;
+                let mut zero_pad = false;
                 while i < chars.len() && "-+ #0".contains(chars[i]) {
                     if chars[i] == '0' {
-                        flags.push('0'); // zero-padding
+                        zero_pad = true;
+                    } else if chars[i] == '-' {
+                        left_align = true;
                     }
-                    // Skip other flags for now (- is left-align, + is sign, etc.)
+                    // Skip other flags for now (+ is sign, etc.)
                     i += 1;
                 }
+                // - overrides 0
+                if left_align {
+                    flags.push('<');
+                } else if zero_pad {
+                    flags.push('0');
+                }
 
                 // Parse width
                 while i < chars.len() && chars[i].is_ascii_digit() {
@@ -872,25 +882,41 @@ impl CodeGenerator {
                         'E' => "{:E}".to_string(),
                         'g' | 'G' => "{}".to_string(),
                         's' => {
+                            let align = if left_align { "<" } else { "" };
+                            if !precision.is_empty() {
+                                format!("{{:{}{}.{}}}", align, width, precision)
+                            } else if !width.is_empty() {
+                                format!("{{:{}{}}}", align, width)
+                            } else {
+                                "{}".to_string()
+                            }
+                        }
+                        'c' => {
+                            // Rust aligns a char to the left by default, C to the right
+                            let align = if left_align { "<" } else { ">" };
                             if !width.is_empty() {
-                                format!("{{:{}}}", width)
+                                format!("{{:{}{}}}", align, width)
                             } else {
                                 "{}".to_string()
                             }
                         }
-                        'c' => "{}".to_string(),
                         'p' => "{:p}".to_string(),
                         _ => {
                             // Unknown specifier, keep original
-                            input[start..i].to_string()
+                            chars[start..i].iter().collect::<String>()
                         }
                     };
                     result.push_str(&rust_spec);
                 } else {
                     // Incomplete format specifier at end of string
-                    result.push_str(&input[start..]);
+                    let rest: String = chars[start..].iter().collect();
+                    result.push_str(&rest);
                 }
             } else {
+                // A literal brace is written twice in a Rust format string
+                if chars[i] == '{' || chars[i] == '}' {
+                    result.push(chars[i]);
+                }
                 result.push(chars[i]);
                 i += 1;
             }
-- 
2.43.0


From 98e85298be407126f6e3e458436870c667ce55f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:17 +0000
Subject: [PATCH 43/47] fix: printf prints characters, string literals and
 comparisons as C does

---
 crates/decy-codegen/src/expr_gen/calls.rs | 15 +++++++++++++--
 crates/decy-codegen/src/expr_gen/misc.rs  | 10 +++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 333dfae..2b6eb49 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -483,12 +483,23 @@ impl CodeGenerator {
                 format!("print!({})", rust_fmt)
             } else {
                 let s_positions = Self::find_string_format_positions(&fmt);
+                let c_positions = Self::find_format_positions(&fmt, 'c');
                 let args: Vec<String> = arguments[1..]
                     .iter()
                     .enumerate()
                     .map(|(i, a)| {
-                        let arg_code = self.generate_expression_with_context(a, ctx);
-                        if s_positions.contains(&i) && !Self::is_string_ternary(a) {
+                        // A comparison is an int in C and a bool in Rust
+                        let arg_code = if Self::is_boolean_expression(a) {
+                            self.generate_expression_with_target_type(a, ctx, Some(&HirType::Int))
+                        } else {
+                            self.generate_expression_with_context(a, ctx)
+                        };
+                        if c_positions.contains(&i) {
+                            format!("({}) as u8 as char", arg_code)
+                        } else if s_positions.contains(&i)
+                            && !Self::is_string_ternary(a)
+                            && !matches!(a, HirExpression::StringLiteral(_))
+                        {
                             let arg_type = ctx.infer_expression_type(a);
                             let is_raw_pointer = matches!(arg_type, Some(HirType::Pointer(_)));
                             let is_function_call = matches!(a, HirExpression::FunctionCall { .. });
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index ffc0bed..b842327 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -928,6 +928,12 @@ impl CodeGenerator {
     /// DECY-187: Find positions of %s format specifiers in a format string.
     /// Returns 0-indexed positions corresponding to printf arguments.
     pub(crate) fn find_string_format_positions(fmt: &str) -> Vec<usize> {
+        Self::find_format_positions(fmt, 's')
+    }
+
+    /// Find positions of the format specifiers of one kind in a format string.
+    /// Returns 0-indexed positions corresponding to printf arguments.
+    pub(crate) fn find_format_positions(fmt: &str, wanted: char) -> Vec<usize> {
         let mut positions = Vec::new();
         let mut arg_index = 0;
         let trimmed = fmt.trim();
@@ -977,7 +983,7 @@ impl CodeGenerator {
                 // Now we should be at the conversion specifier
                 if j < chars.len() {
                     let specifier = chars[j];
-                    if specifier == 's' {
+                    if specifier == wanted {
                         positions.push(arg_index);
                     }
                     // Count this as an argument position (for d, i, u, f, s, c, p, x, X, o, e, E, g, G, n)
@@ -985,6 +991,8 @@ impl CodeGenerator {
                         || specifier == 'i'
                         || specifier == 'u'
                         || specifier == 'f'
+                        || specifier == 'F'
+                        || specifier == 'b'
                         || specifier == 's'
                         || specifier == 'c'
                         || specifier == 'p'
-- 
2.43.0


From 1db63c5cc2e71f4adcb4699ff77e13abf6deacd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:17 +0000
Subject: [PATCH 44/47] fix: C escape sequences in string and character
 literals

---
 crates/decy-codegen/src/expr_gen/literals.rs | 45 +++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/literals.rs b/crates/decy-codegen/src/expr_gen/literals.rs
index 7b106e9..9640be4 100644
--- a/crates/decy-codegen/src/expr_gen/literals.rs
+++ b/crates/decy-codegen/src/expr_gen/literals.rs
@@ -112,13 +112,56 @@ impl CodeGenerator {
                 return format!("b\"{}\\0\".as_ptr() as *mut u8", escaped);
             }
         }
-        format!("\"{}\"", s)
+        format!("\"{}\"", Self::convert_string_escapes(s))
+    }
+
+    /// Convert the escape sequences of a C string literal to those of a Rust string literal.
+    pub(crate) fn convert_string_escapes(s: &str) -> String {
+        let chars: Vec<char> = s.chars().collect();
+        let mut result = String::new();
+        let mut i = 0;
+        while i < chars.len() {
+            if chars[i] != '\\' || i + 1 >= chars.len() {
+                result.push(chars[i]);
+                i += 1;
+                continue;
+            }
+            let escape = chars[i + 1];
+            match escape {
+                'a' => result.push_str("\\x07"),
+                'b' => result.push_str("\\x08"),
+                'f' => result.push_str("\\x0c"),
+                'v' => result.push_str("\\x0b"),
+                'e' => result.push_str("\\x1b"),
+                '?' => result.push('?'),
+                '0'..='7' => {
+                    // One to three octal digits
+                    let mut value = 0;
+                    let mut end = i + 1;
+                    while end < chars.len() && end < i + 4 && ('0'..='7').contains(&chars[end]) {
+                        value = value * 8 + (chars[end] as u32 - '0' as u32);
+                        end += 1;
+                    }
+                    result.push_str(&format!("\\x{:02x}", value));
+                    i = end;
+                    continue;
+                }
+                _ => {
+                    result.push('\\');
+                    result.push(escape);
+                }
+            }
+            i += 2;
+        }
+        result
     }
 
     pub(crate) fn gen_expr_char_literal(c: i8) -> String {
         let val = c as u8;
         if val == 0 {
             "0u8".to_string()
+        } else if val == b'\'' || val == b'\\' {
+            format!("b'\\{}'", val as char)
         } else if val.is_ascii_graphic() || val == b' ' {
             format!("b'{}'", val as char)
         } else {
-- 
2.43.0


From 9bbc6b8e423c432cc6b73901a355ce3dbc10ec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:33 +0000
Subject: [PATCH 45/47] fix: quotes, adjacent literals and octal escapes in C
 literals

---
 crates/decy-parser/src/extract/expressions.rs | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index edb9d3f..a348457 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -422,15 +422,20 @@ pub(crate) fn extract_string_literal(cursor: CXCursor) -> Option<Expression> {
     let mut value = String::new();
 
     if num_tokens > 0 {
-        // SAFETY: Get the spelling of the first token
+        // SAFETY: Get the spelling of each token
         unsafe {
-            let token_cxstring = clang_getTokenSpelling(tu, *tokens);
-            let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
-            if let Ok(token_str) = c_str.to_str() {
+            // Adjacent string literals are one string
+            for i in 0..num_tokens as usize {
+                let token_cxstring = clang_getTokenSpelling(tu, *tokens.add(i));
+                let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
+                let token = c_str.to_str().unwrap_or_default().to_string();
+                clang_disposeString(token_cxstring);
+                if i > 0 && !token.starts_with('"') {
+                    break;
+                }
                 // Remove surrounding quotes from string literal
-                value = token_str.trim_matches('"').to_string();
+                value.push_str(strip_quotes(&token, '"'));
             }
-            clang_disposeString(token_cxstring);
 
             // SAFETY: Dispose tokens
             clang_disposeTokens(tu, tokens, num_tokens);
@@ -440,6 +445,12 @@ pub(crate) fn extract_string_literal(cursor: CXCursor) -> Option<Expression> {
     Some(Expression::StringLiteral(value))
 }
 
+/// Remove one quote from each end of a literal; the quotes inside it are part of its value.
+fn strip_quotes(token: &str, quote: char) -> &str {
+    let inner = token.strip_prefix(quote).unwrap_or(token);
+    inner.strip_suffix(quote).unwrap_or(inner)
+}
+
 /// Extract a character literal expression.
 /// Handles plain characters ('a'), escape sequences ('\0', '\n', '\t', etc.)
 pub(crate) fn extract_char_literal(cursor: CXCursor) -> Option<Expression> {
@@ -470,7 +481,7 @@ pub(crate) fn extract_char_literal(cursor: CXCursor) -> Option<Expression> {
             let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
             if let Ok(token_str) = c_str.to_str() {
                 // Remove surrounding quotes from character literal
-                let inner = token_str.trim_matches('\'');
+                let inner = strip_quotes(token_str, '\'');
                 value = parse_char_literal(inner);
             }
             clang_disposeString(token_cxstring);
@@ -497,13 +508,13 @@ pub(crate) fn parse_char_literal(s: &str) -> i8 {
     if first == '\\' {
         // Escape sequence
         match chars.next() {
-            Some('0') => 0, // null character
             Some('n') => b'\n' as i8,
             Some('t') => b'\t' as i8,
             Some('r') => b'\r' as i8,
             Some('\\') => b'\\' as i8,
             Some('\'') => b'\'' as i8,
             Some('"') => b'"' as i8,
+            Some('?') => b'?' as i8,
             Some('a') => 7,  // bell
             Some('b') => 8,  // backspace
             Some('f') => 12, // form feed
-- 
2.43.0


From 2a85ab49b0ad3c760b8f9fbc655c990b9c4a402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:46 +0000
Subject: [PATCH 46/47] fix: printf does not read past the end of a &str

---
 crates/decy-codegen/src/expr_gen/calls.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 2b6eb49..9387a3b 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -503,7 +503,14 @@ impl CodeGenerator {
                             let arg_type = ctx.infer_expression_type(a);
                             let is_raw_pointer = matches!(arg_type, Some(HirType::Pointer(_)));
                             let is_function_call = matches!(a, HirExpression::FunctionCall { .. });
-                            if is_raw_pointer || is_function_call {
+                            // A &str is not terminated: it is printed as it is
+                            let is_str = matches!(
+                                arg_type,
+                                Some(HirType::StringReference | HirType::StringLiteral)
+                            );
+                            if is_str {
+                                arg_code
+                            } else if is_raw_pointer || is_function_call {
                                 Self::wrap_raw_ptr_with_cstr(&arg_code)
                             } else {
                                 Self::wrap_with_cstr(&arg_code)
-- 
2.43.0


From cf2266ca8855454521c3f9e8606641639176c41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:06 +0000
Subject: [PATCH 47/47] fix: hexadecimal, octal and suffixed integer constants
 have their value

---
 crates/decy-parser/src/extract/expressions.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index a348457..e5feca5 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -326,7 +326,7 @@ pub(crate) fn extract_int_literal(cursor: CXCursor) -> Option<Expression> {
             let token_cxstring = clang_getTokenSpelling(tu, *tokens);
             let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
             if let Ok(token_str) = c_str.to_str() {
-                value = token_str.parse().unwrap_or(0);
+                value = parse_int_literal(token_str);
             }
             clang_disposeString(token_cxstring);
 
@@ -348,6 +348,21 @@ pub(crate) fn extract_int_literal(cursor: CXCursor) -> Option<Expression> {
     Some(Expression::IntLiteral(value))
 }
 
+/// The value of an integer constant: decimal, octal (leading 0) or hexadecimal, with or without
+/// the suffixes u, l and ll. Values that do not fit are read as 0.
+fn parse_int_literal(token: &str) -> i32 {
+    let digits = token.trim_end_matches(['u', 'U', 'l', 'L']);
+    if let Some(hex) = digits.strip_prefix("0x") {
+        i32::from_str_radix(hex, 16).unwrap_or(0)
+    } else if let Some(hex) = digits.strip_prefix("0X") {
+        i32::from_str_radix(hex, 16).unwrap_or(0)
+    } else if digits.starts_with('0') {
+        i32::from_str_radix(digits, 8).unwrap_or(0)
+    } else {
+        i32::from_str_radix(digits, 10).unwrap_or(0)
+    }
+}
+
 /// DECY-207: Extract a floating-point literal expression.
 pub(crate) fn extract_float_literal(cursor: CXCursor) -> Option<Expression> {
     // SAFETY: Get the extent (source range) of the cursor
-- 
2.43.0

