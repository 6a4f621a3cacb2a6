From eab08cbc326fb297299153add4400c4f90a5b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:16 +0000
Subject: [PATCH 01/17] fix: reject or clamp LSP positions that don't fall
 inside the document

Positions past the end of a line (or document) produced offsets outside the syntax tree, which panicked and killed the server.
---
 crates/lsp-server/src/translator/from_lsp.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/lsp-server/src/translator/from_lsp.rs b/crates/lsp-server/src/translator/from_lsp.rs
index eb94e67..7d4828c 100644
--- a/crates/lsp-server/src/translator/from_lsp.rs
+++ b/crates/lsp-server/src/translator/from_lsp.rs
@@ -31,7 +31,24 @@ pub fn offset(
         }
     };
 
-    context.line_index.offset(line_col)
+    // A character past the end of the line defaults back to the line length.
+    // Ref: <https://microsoft.github.io/language-server-protocol/specifications/lsp/3.17/specification/#position>.
+    let line_start = context.line_index.offset(LineCol { col: 0, ..line_col })?;
+    let line_end = context
+        .line_index
+        .offset(LineCol {
+            line: line_col.line + 1,
+            col: 0,
+        })
+        .map_or(context.line_index.len(), |next_line_start| {
+            next_line_start - ink_analyzer::TextSize::of('\n')
+        });
+    let offset = line_start
+        .checked_add(ink_analyzer::TextSize::from(line_col.col))
+        .map_or(line_end, |offset| offset.min(line_end));
+
+    // Ignores positions in the middle of a multi-byte character.
+    context.line_index.try_line_col(offset).map(|_| offset)
 }
 
 /// Translates LSP range to ink! analyzer text range.
-- 
2.43.0


From 6a9283055215182b7e5836144d4ad4800984f882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:16 +0000
Subject: [PATCH 02/17] fix: reject reversed and oversized extract event ranges

A range with start > end panicked (and killed the server), while offsets that don't fit in 32 bits were silently truncated.
---
 crates/lsp-server/src/dispatch/handlers/request.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/lsp-server/src/dispatch/handlers/request.rs b/crates/lsp-server/src/dispatch/handlers/request.rs
index 616c81e..f116637 100644
--- a/crates/lsp-server/src/dispatch/handlers/request.rs
+++ b/crates/lsp-server/src/dispatch/handlers/request.rs
@@ -322,11 +322,10 @@ fn parse_range(value: &serde_json::Value) -> Option<ink_analyzer::TextRange> {
                 .and_then(serde_json::Value::as_u64)
                 .zip(arg.get("end").and_then(serde_json::Value::as_u64))
         })
-        .map(|(start, end)| {
-            ink_analyzer::TextRange::new(
-                ink_analyzer::TextSize::from(start as u32),
-                ink_analyzer::TextSize::from(end as u32),
-            )
+        .and_then(|(start, end)| {
+            let start = ink_analyzer::TextSize::from(u32::try_from(start).ok()?);
+            let end = ink_analyzer::TextSize::from(u32::try_from(end).ok()?);
+            (start <= end).then(|| ink_analyzer::TextRange::new(start, end))
         })
 }
 
-- 
2.43.0


From e8e4c5aedd3dca4c16d5cdc2b2d6376d1400e79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:35 +0000
Subject: [PATCH 03/17] fix: emit scale_derive migration edits in source order

The edits were emitted in hash map iteration order, so identical input produced differently ordered edits on every run.
---
 crates/analyzer/src/analysis/migrate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate.rs b/crates/analyzer/src/analysis/migrate.rs
index 78803bf..0bf3ebe 100644
--- a/crates/analyzer/src/analysis/migrate.rs
+++ b/crates/analyzer/src/analysis/migrate.rs
@@ -9,7 +9,7 @@ use ink_analyzer_ir::ast::HasName;
 use ink_analyzer_ir::syntax::{AstNode, AstToken, SyntaxKind, SyntaxToken, TextRange, TextSize};
 use ink_analyzer_ir::{ast, ChainExtension, InkArg, InkArgKind, InkEntity, InkFile, IsInkStruct};
 use itertools::Itertools;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use super::{utils, TextEdit};
 use crate::analysis::text_edit::format_edits;
@@ -152,7 +152,7 @@ fn chain_extensions(results: &mut Vec<TextEdit>, file: &InkFile) {
 fn scale_derive(results: &mut Vec<TextEdit>, file: &InkFile) {
     // Mapping from target item (via location/start offset) to scale traits to derive and their insert offset.
     // Used to consolidate scale item traits from multiple attributes into a single new `scale_derive` attribute.
-    let mut scale_items_map: HashMap<TextSize, (TextSize, Vec<InkArgKind>)> = HashMap::new();
+    let mut scale_items_map: BTreeMap<TextSize, (TextSize, Vec<InkArgKind>)> = BTreeMap::new();
     let scale_trait_options: [(&str, &[&str], InkArgKind); 3] = [
         ("Encode", &resolution::SCALE_QUALIFIERS, InkArgKind::Encode),
         ("Decode", &resolution::SCALE_QUALIFIERS, InkArgKind::Decode),
-- 
2.43.0


From c07e06860619a849e39a8942ae7c706dce91f0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:00 +0000
Subject: [PATCH 04/17] fix: visit conditions, guards, iterables and let-else
 blocks when migrating

Calls nested in if/while conditions, for iterables, match guards and let-else blocks were never visited, so they were silently left unmigrated.
---
 .../src/analysis/migrate/traversal.rs         | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/crates/analyzer/src/analysis/migrate/traversal.rs b/crates/analyzer/src/analysis/migrate/traversal.rs
index 75150f4..2ac58bd 100644
--- a/crates/analyzer/src/analysis/migrate/traversal.rs
+++ b/crates/analyzer/src/analysis/migrate/traversal.rs
@@ -52,6 +52,7 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
             visit_sub_expr_opt!(visitor, expr.body());
         }
         ast::Expr::ForExpr(expr) => {
+            visit_sub_expr_opt!(visitor, expr.iterable());
             if let Some(body) = expr.loop_body() {
                 visitor.visit_block(&body);
             }
@@ -76,8 +77,10 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
         ast::Expr::MatchExpr(expr) => {
             visit_sub_expr!(visitor, expr);
             if let Some(arms) = expr.match_arm_list().as_ref().map(ast::MatchArmList::arms) {
-                let arms_exprs = arms.filter_map(|arm| arm.expr());
-                visit_sub_exprs_iter!(visitor, arms_exprs);
+                for arm in arms {
+                    visit_sub_expr_opt!(visitor, arm.guard().and_then(|guard| guard.condition()));
+                    visit_sub_expr!(visitor, arm);
+                }
             }
         }
         ast::Expr::MethodCallExpr(expr) => {
@@ -99,6 +102,7 @@ pub fn walk_expr<V: Visitor>(visitor: &mut V, expr: &ast::Expr) {
             visit_sub_exprs_iter!(visitor, expr.fields());
         }
         ast::Expr::WhileExpr(expr) => {
+            visit_sub_expr_opt!(visitor, expr.condition());
             if let Some(body) = expr.loop_body() {
                 visitor.visit_block(&body);
             }
@@ -126,14 +130,15 @@ pub fn walk_block<V: Visitor>(visitor: &mut V, block_expr: &ast::BlockExpr) {
         return;
     };
     for stmt in stmt_list.statements() {
-        let expr = match stmt {
-            ast::Stmt::ExprStmt(expr_stmt) => expr_stmt.expr(),
-            ast::Stmt::LetStmt(let_stmt) => let_stmt.initializer(),
-            ast::Stmt::Item(_) => None,
-        };
-
-        if let Some(expr) = expr {
-            visitor.visit_expr(&expr);
+        match stmt {
+            ast::Stmt::ExprStmt(expr_stmt) => visit_sub_expr!(visitor, expr_stmt),
+            ast::Stmt::LetStmt(let_stmt) => {
+                visit_sub_expr_opt!(visitor, let_stmt.initializer());
+                if let Some(block) = let_stmt.let_else().and_then(|it| it.block_expr()) {
+                    visitor.visit_block(&block);
+                }
+            }
+            ast::Stmt::Item(_) => (),
         }
     }
     let Some(expr) = stmt_list.tail_expr() else {
@@ -152,6 +157,7 @@ pub fn walk_call<V: Visitor>(visitor: &mut V, expr: &ast::CallExpr) {
 }
 
 pub fn walk_if_expr<V: Visitor>(visitor: &mut V, if_expr: &ast::IfExpr) {
+    visit_sub_expr_opt!(visitor, if_expr.condition());
     if let Some(expr) = if_expr.then_branch() {
         visitor.visit_block(&expr);
     }
-- 
2.43.0


From 28d4a3b64a5608e1bfa063256b127282d14f0b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:12 +0000
Subject: [PATCH 05/17] fix: advertise code action kinds in a stable order

The kinds were listed in hash set iteration order, so identical initialize requests were answered differently.
---
 crates/lsp-server/src/utils.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/lsp-server/src/utils.rs b/crates/lsp-server/src/utils.rs
index 9b4086b..6d8c017 100644
--- a/crates/lsp-server/src/utils.rs
+++ b/crates/lsp-server/src/utils.rs
@@ -46,15 +46,15 @@ pub fn code_actions_kinds(client_capabilities: &ClientCapabilities) -> Option<Ve
         .and_then(|it| {
             // If client defines supported code action kinds,
             // return only code actions supported by both the client and server (if any), otherwise return none.
-            let code_actions_kinds: Vec<CodeActionKind> = HashSet::from(SERVER_CODE_ACTION_KINDS)
-                .intersection(
-                    &it.code_action_kind
-                        .value_set
-                        .iter()
-                        .map(|it| CodeActionKind::from(it.to_owned()))
-                        .collect::<HashSet<CodeActionKind>>(),
-                )
-                .cloned()
+            let client_code_action_kinds: HashSet<CodeActionKind> = it
+                .code_action_kind
+                .value_set
+                .iter()
+                .map(|it| CodeActionKind::from(it.to_owned()))
+                .collect();
+            let code_actions_kinds: Vec<CodeActionKind> = SERVER_CODE_ACTION_KINDS
+                .into_iter()
+                .filter(|kind| client_code_action_kinds.contains(kind))
                 .collect();
             (!code_actions_kinds.is_empty()).then_some(code_actions_kinds)
         })
-- 
2.43.0


From e70ae8d972f0aeda7af49ed969f94a2722b59245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:10 +0000
Subject: [PATCH 06/17] fix: resolve items from use declarations
 deterministically

Use paths were tried in hash set iteration order, so a name imported both explicitly and via a glob resolved to either item at random. Explicit imports now take precedence (as in Rust), and ties are broken by path.
---
 crates/ir/src/tree/ast_ext.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index a7a45c8..845e924 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -85,6 +85,9 @@ where
 macro_rules! resolve_item_path_from_use_scope_and_aliases {
     ($name: ident, $root_node: expr) => {{
         let (use_paths, item_aliases) = $crate::simple_use_paths_and_aliases_in_scope($root_node);
+        // Explicit imports shadow glob imports.
+        let mut use_paths: Vec<_> = use_paths.into_iter().collect();
+        use_paths.sort_by_cached_key(|use_path| (use_path.ends_with('*'), use_path.clone()));
 
         std::iter::once(item_aliases.get(&$name).cloned())
             .flatten()
-- 
2.43.0


From 378313010a01acdd3f7707f3ea40f93d66b64db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:23 +0000
Subject: [PATCH 07/17] fix: terminate on cyclic use declarations and type
 aliases

---
 crates/analyzer/src/resolution.rs | 66 +++++++++++++++++++++++++------
 crates/ir/src/tree/ast_ext.rs     | 43 ++++++++++++++++++--
 2 files changed, 93 insertions(+), 16 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index 32d8c03..ff00772 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -78,6 +78,18 @@ pub fn is_external_crate_item(
     path: &ast::Path,
     qualifiers: &[&str],
     ref_node: &SyntaxNode,
+) -> bool {
+    is_external_crate_item_acyclic(name, path, qualifiers, ref_node, &[])
+}
+
+// Checks that the `path` resolves to the item `name` with one of the crate `qualifiers` (or any of their aliases),
+// `trail` tracks the type aliases that are already being resolved (e.g. for cyclic type aliases).
+fn is_external_crate_item_acyclic(
+    name: &str,
+    path: &ast::Path,
+    qualifiers: &[&str],
+    ref_node: &SyntaxNode,
+    trail: &[ast::TypeAlias],
 ) -> bool {
     let name_is_path_target = is_path_target(name, path);
 
@@ -103,7 +115,7 @@ pub fn is_external_crate_item(
                 .map(|qualifier| qualifier.split("::").next().unwrap_or(qualifier))
                 .collect();
             let (use_paths, item_aliases) =
-                external_crate_uses_and_aliases_in_scope(&crates, &root_node);
+                external_crate_uses_and_aliases_in_scope(&crates, &root_node, &[]);
 
             // Reverse `alias -> path` map to `path -> [alias]`.
             let mut item_path_to_aliases: HashMap<String, HashSet<String>> = HashMap::new();
@@ -210,13 +222,26 @@ pub fn is_external_crate_item(
                 ink_analyzer_ir::resolve_item::<ast::TypeAlias>(path, &root_node).map_or(
                     false,
                     |type_alias| {
-                        type_alias
-                            .ty()
-                            .as_ref()
-                            .and_then(ink_analyzer_ir::path_from_type)
-                            .is_some_and(|path| {
-                                is_external_crate_item(name, &path, qualifiers, type_alias.syntax())
-                            })
+                        let is_cyclic = trail.contains(&type_alias);
+                        let trail: Vec<_> = trail
+                            .iter()
+                            .chain(iter::once(&type_alias))
+                            .cloned()
+                            .collect();
+                        !is_cyclic
+                            && type_alias
+                                .ty()
+                                .as_ref()
+                                .and_then(ink_analyzer_ir::path_from_type)
+                                .is_some_and(|path| {
+                                    is_external_crate_item_acyclic(
+                                        name,
+                                        &path,
+                                        qualifiers,
+                                        type_alias.syntax(),
+                                        &trail,
+                                    )
+                                })
                     },
                 )
             };
@@ -303,10 +328,12 @@ fn is_crate_item_path(path: &str, crates: &[&str]) -> bool {
         .any(|qualifier| path == qualifier || path.starts_with(&format!("{qualifier}::")))
 }
 
-// Collects crate use paths and aliases in the current scope.
+// Collects crate use paths and aliases in the current scope,
+// `trail` tracks the paths (and their scopes) that are already being resolved (e.g. for cyclic use declarations).
 fn external_crate_uses_and_aliases_in_scope(
     crates: &[&str],
     ref_node: &SyntaxNode,
+    trail: &[(String, SyntaxNode)],
 ) -> (HashSet<String>, HashMap<String, String>) {
     let (mut use_paths, mut item_aliases) =
         ink_analyzer_ir::simple_use_paths_and_aliases_in_scope(ref_node);
@@ -319,7 +346,7 @@ fn external_crate_uses_and_aliases_in_scope(
         use_paths.remove(&use_path_str);
 
         // Resolves path if it points to a use declaration for one of the specified external crates.
-        let result = match_path_to_external_crate_in_scope(&use_path_str, crates, ref_node);
+        let result = match_path_to_external_crate_in_scope(&use_path_str, crates, ref_node, trail);
         use_paths.extend(result.0);
         item_aliases.extend(result.1);
     }
@@ -335,7 +362,8 @@ fn external_crate_uses_and_aliases_in_scope(
             .as_ref()
             .and_then(ast::Path::segment)
         {
-            let result = match_path_to_external_crate_in_scope(&item_path_str, crates, ref_node);
+            let result =
+                match_path_to_external_crate_in_scope(&item_path_str, crates, ref_node, trail);
             if let Some(resolved_item_path) = result
                 .0
                 .iter()
@@ -350,14 +378,24 @@ fn external_crate_uses_and_aliases_in_scope(
     (use_paths, item_aliases)
 }
 
-// Matches a path to an external crate item (if possible) using `use` declarations and aliases in the current scope.
+// Matches a path to an external crate item (if possible) using `use` declarations and aliases in the current scope,
+// `trail` tracks the paths (and their scopes) that are already being resolved (e.g. for cyclic use declarations).
 fn match_path_to_external_crate_in_scope(
     path: &str,
     crates: &[&str],
     ref_node: &SyntaxNode,
+    trail: &[(String, SyntaxNode)],
 ) -> (HashSet<String>, HashMap<String, String>) {
     let mut use_paths = HashSet::new();
     let mut item_aliases = HashMap::new();
+
+    // Only continue if the path isn't already being resolved.
+    let step = (path.to_owned(), ref_node.clone());
+    if trail.contains(&step) {
+        return (use_paths, item_aliases);
+    }
+    let trail: Vec<_> = trail.iter().cloned().chain(iter::once(step)).collect();
+
     let item_path_option = ink_analyzer_ir::path_from_str(path).and_then(|path| {
         path.qualifier().and_then(|qualifier| {
             let target_name_option = path
@@ -377,7 +415,8 @@ fn match_path_to_external_crate_in_scope(
     });
     if let Some((target_name, qualifier_ref_node)) = item_path_option {
         if target_name == "*" {
-            let result = external_crate_uses_and_aliases_in_scope(crates, &qualifier_ref_node);
+            let result =
+                external_crate_uses_and_aliases_in_scope(crates, &qualifier_ref_node, &trail);
             use_paths.extend(result.0);
             item_aliases.extend(result.1);
         } else {
@@ -399,6 +438,7 @@ fn match_path_to_external_crate_in_scope(
                         &resolved_path_str,
                         crates,
                         &qualifier_ref_node,
+                        &trail,
                     );
                     use_paths.extend(result.0);
                     item_aliases.extend(result.1);
diff --git a/crates/ir/src/tree/ast_ext.rs b/crates/ir/src/tree/ast_ext.rs
index 845e924..7ab59c1 100644
--- a/crates/ir/src/tree/ast_ext.rs
+++ b/crates/ir/src/tree/ast_ext.rs
@@ -111,6 +111,21 @@ pub fn resolve_item<T>(path: &ast::Path, ref_node: &SyntaxNode) -> Option<T>
 where
     T: AstNode + HasName,
 {
+    resolve_item_acyclic(path, ref_node, &[])
+}
+
+// Returns the AST item referenced by the path (if any),
+// `trail` tracks the paths (and their scopes) that are already being resolved (e.g. for cyclic use declarations).
+fn resolve_item_acyclic<T>(
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    trail: &[(String, SyntaxNode)],
+) -> Option<T>
+where
+    T: AstNode + HasName,
+{
+    let trail = extend_resolution_trail(path, ref_node, trail)?;
+
     // Only continue if the last segment is valid.
     let target = path.segment()?;
     let target_name = target.name_ref()?;
@@ -142,7 +157,7 @@ where
                     // Only recurse if the path resolved from use scope and aliases
                     // is different from the current path argument.
                     if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_item(&resolved_path, &root_node)
+                        resolve_item_acyclic(&resolved_path, &root_node, &trail)
                     } else {
                         None
                     }
@@ -158,7 +173,7 @@ where
                         // Only recurse if the path resolved from use scope and aliases
                         // is different from the current path argument.
                         if path_to_string(&resolved_path) != path_to_string(path) {
-                            resolve_item(&resolved_path, ref_node)
+                            resolve_item_acyclic(&resolved_path, ref_node, &trail)
                         } else {
                             None
                         }
@@ -188,6 +203,18 @@ pub fn resolve_current_module(node: &SyntaxNode) -> Option<SyntaxNode> {
 
 /// Resolves qualifier root/module (if it exists).
 pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<SyntaxNode> {
+    resolve_qualifier_acyclic(path, ref_node, &[])
+}
+
+// Resolves qualifier root/module (if it exists),
+// `trail` tracks the paths (and their scopes) that are already being resolved (e.g. for cyclic use declarations).
+fn resolve_qualifier_acyclic(
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    trail: &[(String, SyntaxNode)],
+) -> Option<SyntaxNode> {
+    let trail = extend_resolution_trail(path, ref_node, trail)?;
+
     // Resolves next child module.
     let resolve_next_child_module = |name: &ast::NameRef, root: &SyntaxNode| {
         let resolve_child = || {
@@ -205,7 +232,7 @@ pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<Synt
                     // Only recurse if the path resolved from use scope and aliases
                     // is different from the current path argument.
                     if path_to_string(&resolved_path) != path_to_string(path) {
-                        resolve_qualifier(&resolved_path, root)
+                        resolve_qualifier_acyclic(&resolved_path, root, &trail)
                     } else {
                         None
                     }
@@ -264,6 +291,16 @@ pub fn resolve_qualifier(path: &ast::Path, ref_node: &SyntaxNode) -> Option<Synt
     resolution_root_option
 }
 
+// Adds the path (and its scope) to the trail, returns `None` if it's already being resolved.
+fn extend_resolution_trail(
+    path: &ast::Path,
+    ref_node: &SyntaxNode,
+    trail: &[(String, SyntaxNode)],
+) -> Option<Vec<(String, SyntaxNode)>> {
+    let step = (path_to_string(path), ref_node.clone());
+    (!trail.contains(&step)).then(|| trail.iter().cloned().chain(once(step)).collect())
+}
+
 /// Returns all use paths and aliases in the current scope as flattened simple paths.
 pub fn simple_use_paths_and_aliases_in_scope(
     ref_node: &SyntaxNode,
-- 
2.43.0


From 0c43d92f069c39d80d0df5a9eadd1b3be4498508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:59 +0000
Subject: [PATCH 08/17] fix: list missing trait definition messages in source
 order

---
 .../analysis/diagnostics/contract/ink_impl.rs | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
index d720fbe..a90e860 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
@@ -516,18 +516,22 @@ fn ensure_trait_definition_impl_invariants(
         }
 
         // Computes diagnostic for missing messages (if any).
-        let mut missing_messages = message_index.values().filter_map(|message| {
-            // Filters missing messages (with valid names).
-            message.fn_item().and_then(|fn_item| {
-                fn_item
-                    .name()
-                    .is_some_and(|name| {
-                        let name_text = name.to_string();
-                        !name_text.is_empty() && !seen_messages.contains(&name_text)
-                    })
-                    .then_some(fn_item)
-            })
-        });
+        let mut missing_messages = message_index
+            .values()
+            // Uses source order.
+            .sorted_by_key(|message| message.syntax().text_range().start())
+            .filter_map(|message| {
+                // Filters missing messages (with valid names).
+                message.fn_item().and_then(|fn_item| {
+                    fn_item
+                        .name()
+                        .is_some_and(|name| {
+                            let name_text = name.to_string();
+                            !name_text.is_empty() && !seen_messages.contains(&name_text)
+                        })
+                        .then_some(fn_item)
+                })
+            });
         if let Some(fn_item) = missing_messages.next() {
             let (insert_offset, indent_option, prefix_option, suffix_option) = impl_item
                 .assoc_item_list()
-- 
2.43.0


From 8d232d411f9439babcd766faecbd8db862e5b3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:59 +0000
Subject: [PATCH 09/17] fix: order created files and edits of a project command
 deterministically

---
 .../src/dispatch/handlers/command.rs          | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/crates/lsp-server/src/dispatch/handlers/command.rs b/crates/lsp-server/src/dispatch/handlers/command.rs
index 4078853..a039ae6 100644
--- a/crates/lsp-server/src/dispatch/handlers/command.rs
+++ b/crates/lsp-server/src/dispatch/handlers/command.rs
@@ -1,6 +1,6 @@
 //! LSP command utilities.
 
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fs;
 
 use ink_analyzer::Version;
@@ -454,6 +454,9 @@ impl From<CreateProjectResponse> for lsp_types::DocumentChanges {
         let doc_changes = value
             .files
             .into_iter()
+            // Uses a stable order.
+            .collect::<BTreeMap<_, _>>()
+            .into_iter()
             .flat_map(|(uri, content)| {
                 vec![
                     lsp_types::DocumentChangeOperation::Op(lsp_types::ResourceOp::Create(
@@ -485,6 +488,9 @@ impl From<ExtractEventResponse> for lsp_types::DocumentChanges {
         let doc_changes = value
             .files
             .into_iter()
+            // Uses a stable order.
+            .collect::<BTreeMap<_, _>>()
+            .into_iter()
             .flat_map(|(uri, content)| {
                 vec![
                     lsp_types::DocumentChangeOperation::Op(lsp_types::ResourceOp::Create(
@@ -506,15 +512,22 @@ impl From<ExtractEventResponse> for lsp_types::DocumentChanges {
                     }),
                 ]
             })
-            .chain(value.edits.into_iter().map(|(uri, edits)| {
-                lsp_types::DocumentChangeOperation::Edit(lsp_types::TextDocumentEdit {
-                    text_document: lsp_types::OptionalVersionedTextDocumentIdentifier {
-                        uri,
-                        version: None,
-                    },
-                    edits: edits.into_iter().map(lsp_types::OneOf::Left).collect(),
-                })
-            }))
+            .chain(
+                value
+                    .edits
+                    .into_iter()
+                    .collect::<BTreeMap<_, _>>()
+                    .into_iter()
+                    .map(|(uri, edits)| {
+                        lsp_types::DocumentChangeOperation::Edit(lsp_types::TextDocumentEdit {
+                            text_document: lsp_types::OptionalVersionedTextDocumentIdentifier {
+                                uri,
+                                version: None,
+                            },
+                            edits: edits.into_iter().map(lsp_types::OneOf::Left).collect(),
+                        })
+                    }),
+            )
             .collect();
         lsp_types::DocumentChanges::Operations(doc_changes)
     }
-- 
2.43.0


From 565c0a4f1e85033df80427b2cbdf22a32b804547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:26 +0000
Subject: [PATCH 10/17] fix: migrate calls nested in the arguments of
 instantiate_contract/invoke_contract

---
 crates/analyzer/src/analysis/migrate/host_fn.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/analyzer/src/analysis/migrate/host_fn.rs b/crates/analyzer/src/analysis/migrate/host_fn.rs
index 247e34d..595b47e 100644
--- a/crates/analyzer/src/analysis/migrate/host_fn.rs
+++ b/crates/analyzer/src/analysis/migrate/host_fn.rs
@@ -186,6 +186,8 @@ impl Visitor for BodyVisitor {
                     format!("{name_ref}_v1"),
                     name_ref.syntax().text_range(),
                 ));
+                // Arguments can include other calls that need to be migrated.
+                walk_call(self, expr);
             }
         }
 
-- 
2.43.0


From 894e8663c0b88799990975f660586d99cc99494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:42 +0000
Subject: [PATCH 11/17] fix: only rename host functions called on the contract
 environment when migrating

---
 crates/analyzer/src/analysis/migrate/host_fn.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer/src/analysis/migrate/host_fn.rs b/crates/analyzer/src/analysis/migrate/host_fn.rs
index 595b47e..9e6a6d0 100644
--- a/crates/analyzer/src/analysis/migrate/host_fn.rs
+++ b/crates/analyzer/src/analysis/migrate/host_fn.rs
@@ -229,6 +229,7 @@ impl Visitor for BodyVisitor {
             });
         if !is_self_env_call {
             walk_method_call(self, expr);
+            return;
         }
         chained_env_host_fn_call(&mut self.results, expr.syntax());
     }
-- 
2.43.0


From 170e0928ff3d4eef898746d402cf76714330f82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:17 +0000
Subject: [PATCH 12/17] fix: no second comma when adding an argument after a
 trailing comma and whitespace

---
 crates/analyzer/src/analysis/utils.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/analyzer/src/analysis/utils.rs b/crates/analyzer/src/analysis/utils.rs
index dae4328..06eb4b5 100644
--- a/crates/analyzer/src/analysis/utils.rs
+++ b/crates/analyzer/src/analysis/utils.rs
@@ -1049,14 +1049,19 @@ pub fn ink_arg_insert_offset_and_affixes(
                                 token_tree
                                     .r_paren_token()
                                     .and_then(|r_paren| {
-                                        r_paren.prev_token().and_then(|penultimate_token| {
-                                            match penultimate_token.kind() {
+                                        ink_analyzer_ir::closest_non_trivia_token(
+                                            &r_paren,
+                                            SyntaxToken::prev_token,
+                                        )
+                                        .and_then(
+                                            |penultimate_token| match penultimate_token.kind() {
                                                 SyntaxKind::COMMA | SyntaxKind::L_PAREN => None,
-                                                // Adds a comma if the token before the right parenthesis is
-                                                // neither a comma nor the left parenthesis.
+                                                // Adds a comma if the (non-trivia) token before
+                                                // the right parenthesis is neither a comma
+                                                // nor the left parenthesis.
                                                 _ => Some(", "),
-                                            }
-                                        })
+                                            },
+                                        )
                                     })
                                     .or_else(|| {
                                         token_tree.syntax().last_token().and_then(|last_token| {
-- 
2.43.0


From b6f66813327c26371c93850e8315749442b174cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:54 +0000
Subject: [PATCH 13/17] fix: suggest unused names and ids for new ink! v5 chain
 extension functions

---
 .../analyzer/src/analysis/text_edit/common.rs | 44 +++++++++++++------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/crates/analyzer/src/analysis/text_edit/common.rs b/crates/analyzer/src/analysis/text_edit/common.rs
index 8e53b39..0d5bf11 100644
--- a/crates/analyzer/src/analysis/text_edit/common.rs
+++ b/crates/analyzer/src/analysis/text_edit/common.rs
@@ -5,8 +5,8 @@ use std::collections::HashSet;
 use ink_analyzer_ir::ast::{HasModuleItem, HasName};
 use ink_analyzer_ir::syntax::{AstNode, TextRange};
 use ink_analyzer_ir::{
-    ast, ChainExtension, Contract, Extension, InkEntity, InkFile, IsInkFn, IsInkTrait, Message,
-    TraitDefinition, Version,
+    ast, ChainExtension, Contract, Extension, Function, InkEntity, InkFile, IsInkFn, IsInkTrait,
+    Message, TraitDefinition, Version,
 };
 
 use super::{utils, TextEdit};
@@ -191,6 +191,15 @@ pub fn add_topic(
     )
 }
 
+/// Returns the names of all `fn` items for the ink! entities.
+fn fn_item_names<T: IsInkFn>(items: &[T]) -> HashSet<String> {
+    items
+        .iter()
+        .filter_map(IsInkFn::fn_item)
+        .filter_map(|fn_item| fn_item.name().as_ref().map(ToString::to_string))
+        .collect()
+}
+
 fn impl_fn_names(impl_item: &ast::Impl) -> HashSet<String> {
     impl_item
         .assoc_item_list()
@@ -308,12 +317,12 @@ pub fn add_extension(
 ) -> TextEdit {
     // Sets insert indent and suggested name.
     let indent = utils::item_children_indenting(chain_extension.syntax());
-    let names = chain_extension
-        .extensions()
-        .iter()
-        .filter_map(Extension::fn_item)
-        .filter_map(|fn_item| fn_item.name().as_ref().map(ToString::to_string))
-        .collect();
+    // ink! v5 chain extensions are composed of functions instead of extensions.
+    let names = if version == Version::V5 {
+        fn_item_names(chain_extension.functions())
+    } else {
+        fn_item_names(chain_extension.extensions())
+    };
     let (mut text, mut snippet) = if version == Version::V5 {
         let preferred_name = "my_function";
         let suggested_name = utils::suggest_unique_name(preferred_name, &names);
@@ -329,11 +338,20 @@ pub fn add_extension(
             EXTENSION_FN_SNIPPET.replace(preferred_name, &suggested_name),
         )
     };
-    let unavailable_ids = chain_extension
-        .extensions()
-        .iter()
-        .filter_map(Extension::id)
-        .collect();
+    let unavailable_ids = if version == Version::V5 {
+        chain_extension
+            .functions()
+            .iter()
+            .filter_map(Function::id)
+            .map(u32::from)
+            .collect()
+    } else {
+        chain_extension
+            .extensions()
+            .iter()
+            .filter_map(Extension::id)
+            .collect()
+    };
     let id = utils::suggest_unique_id(None, &unavailable_ids).unwrap_or(1);
     if id > 1 {
         text = text.replace("1)]", &format!("{id})]"));
-- 
2.43.0


From 86cd89c08714475539fe7db581df509c69f61052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:04 +0000
Subject: [PATCH 14/17] fix: add inline body to contract mod without replacing
 the whole contract

---
 crates/analyzer/src/analysis/diagnostics/contract.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer/src/analysis/diagnostics/contract.rs b/crates/analyzer/src/analysis/diagnostics/contract.rs
index 176e3c9..82890ec 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract.rs
@@ -8,7 +8,7 @@ use std::collections::HashSet;
 
 use ink_analyzer_ir::ast::HasName;
 use ink_analyzer_ir::meta::MetaValue;
-use ink_analyzer_ir::syntax::{AstNode, SyntaxKind, SyntaxNode, SyntaxToken};
+use ink_analyzer_ir::syntax::{AstNode, SyntaxKind, SyntaxNode, SyntaxToken, TextRange};
 use ink_analyzer_ir::{
     ast, Contract, InkArg, InkArgKind, InkAttributeKind, InkEntity, InkMacroKind, IsInkCallable,
     IsInkFn, Message, Selector, SelectorArg, Storage,
@@ -124,11 +124,11 @@ fn ensure_inline_module(contract: &Contract) -> Option<Diagnostic> {
     match contract.module() {
         Some(module) => module.item_list().is_none().then(|| {
             let semicolon_token = contract.module().and_then(ast::Module::semicolon_token);
-            // Edit range for quickfix.
+            // Edit range for quickfix (i.e. replaces the semicolon if it exists, or otherwise inserts at the end).
             let quickfix_range = semicolon_token
                 .as_ref()
                 .map(SyntaxToken::text_range)
-                .unwrap_or_else(|| contract.syntax().text_range());
+                .unwrap_or_else(|| TextRange::empty(contract.syntax().text_range().end()));
             Diagnostic {
                 message: "The content of an ink! contract's `mod` item must be defined inline."
                     .to_owned(),
@@ -138,10 +138,7 @@ fn ensure_inline_module(contract: &Contract) -> Option<Diagnostic> {
                     label: "Add inline body to ink! contract `mod`.".to_owned(),
                     kind: ActionKind::QuickFix,
                     range: declaration_range,
-                    edits: vec![TextEdit::replace(
-                        format!("{}{{}}", if semicolon_token.is_some() { " " } else { "" }),
-                        quickfix_range,
-                    )],
+                    edits: vec![TextEdit::replace(" {}".to_owned(), quickfix_range)],
                 }]),
             }
         }),
-- 
2.43.0


From 2c5e73f4c1bae140061160645b7a60b93f9431c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:13 +0000
Subject: [PATCH 15/17] fix: suggest a name that is not taken for overlapping
 selectors

---
 crates/analyzer/src/analysis/actions/entity.rs       |  3 ++-
 crates/analyzer/src/analysis/diagnostics/contract.rs | 10 ++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/analysis/actions/entity.rs b/crates/analyzer/src/analysis/actions/entity.rs
index 91ccb21..eef54bb 100644
--- a/crates/analyzer/src/analysis/actions/entity.rs
+++ b/crates/analyzer/src/analysis/actions/entity.rs
@@ -187,7 +187,8 @@ fn add_callable_to_contract(
         })
 }
 
-fn contract_fn_names(contract: &Contract) -> HashSet<String> {
+/// Returns the names of all constructor and message `fn` items of the ink! contract.
+pub fn contract_fn_names(contract: &Contract) -> HashSet<String> {
     contract
         .constructors()
         .iter()
diff --git a/crates/analyzer/src/analysis/diagnostics/contract.rs b/crates/analyzer/src/analysis/diagnostics/contract.rs
index 82890ec..8e170db 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract.rs
@@ -261,6 +261,7 @@ where
 ///
 /// Ref: <https://github.com/paritytech/ink/blob/v4.1.0/crates/ink/ir/src/ir/trait_def/item/mod.rs#L336-L337>.
 fn ensure_no_overlapping_selectors(results: &mut Vec<Diagnostic>, contract: &Contract) {
+    let mut unavailable_names = entity_actions::contract_fn_names(contract);
     for (selectors, name, mut unavailable_ids) in [
         (
             get_composed_selectors(contract.constructors()),
@@ -337,14 +338,19 @@ fn ensure_no_overlapping_selectors(results: &mut Vec<Diagnostic>, contract: &Con
                         })
                         .or_else(|| {
                             fn_name_option().map(|name| {
+                                let suggested_name = utils::suggest_unique_name(
+                                    &name.to_string(),
+                                    &unavailable_names,
+                                );
+                                unavailable_names.insert(suggested_name.clone());
                                 vec![Action {
                                     label: "Replace with a unique name.".to_owned(),
                                     kind: ActionKind::QuickFix,
                                     range: name.syntax().text_range(),
                                     edits: vec![TextEdit::replace_with_snippet(
-                                        format!("{name}2"),
+                                        suggested_name.clone(),
                                         name.syntax().text_range(),
-                                        Some(format!("${{1:{name}2}}")),
+                                        Some(format!("${{1:{suggested_name}}}")),
                                     )],
                                 }]
                             })
-- 
2.43.0


From f9bb8373bfb732107e41db9e81788a4b63dd60a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:22 +0000
Subject: [PATCH 16/17] fix: report missing trait message arguments in a
 deterministic order

---
 crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
index a90e860..165d8b8 100644
--- a/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
+++ b/crates/analyzer/src/analysis/diagnostics/contract/ink_impl.rs
@@ -823,6 +823,8 @@ fn ensure_trait_definition_impl_message_args(
         .filter(|arg| {
             !seen_arg_kinds.contains(arg.kind()) && allowed_arg_kinds.contains(arg.kind())
         })
+        // Ensures a deterministic (i.e. source) order for arguments with an equal sort order.
+        .sorted_by_key(|arg| arg.text_range().start())
         .sorted();
     if let Some(first_arg) = missing_args.next() {
         // Determines a "valid" attribute to extend (if possible).
-- 
2.43.0


From 4a2f87c5be06d31db153a8870f3501f64c4232bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:48 +0000
Subject: [PATCH 17/17] fix: order modules in item paths from the crate root to
 the item

---
 crates/analyzer/src/resolution.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer/src/resolution.rs b/crates/analyzer/src/resolution.rs
index ff00772..5d97b85 100644
--- a/crates/analyzer/src/resolution.rs
+++ b/crates/analyzer/src/resolution.rs
@@ -16,14 +16,20 @@ where
     T: HasName,
 {
     item.name().map(|name| {
-        iter::once(String::from("crate"))
-            .chain(item.syntax().ancestors().filter_map(|node| {
+        let parent_modules = item
+            .syntax()
+            .ancestors()
+            .filter_map(|node| {
                 ast::Module::cast(node)
                     .as_ref()
                     .and_then(HasName::name)
                     .as_ref()
                     .map(ToString::to_string)
-            }))
+            })
+            .collect::<Vec<String>>();
+        iter::once(String::from("crate"))
+            // Ancestors are ordered from the innermost to the outermost module.
+            .chain(parent_modules.into_iter().rev())
             .chain(iter::once(name.to_string()))
             .join("::")
     })
-- 
2.43.0

