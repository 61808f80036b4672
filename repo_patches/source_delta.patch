From 2edb4fa77412145f84e51346a7f9e184884a4f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 01/80] fix: do not expand macros in the conditions of inactive
 #if directives

---
 crates/dreammaker/src/preprocessor.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index daa926b..95d8fe7 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -621,6 +621,7 @@ impl<'ctx> Preprocessor<'ctx> {
     fn evaluate_inner(&mut self) -> Result<bool, DMError> {
         // pump real_next to fill output until we get a real newline on input
         let start = self.last_input_loc;
+        let disabled = self.is_disabled();
         while let Some(tok) = self.inner_next() {
             self.last_input_loc = tok.location;
 
@@ -628,6 +629,11 @@ impl<'ctx> Preprocessor<'ctx> {
                 break;
             }
 
+            // Don't expand macros (and report their misuse) in inactive code.
+            if disabled {
+                continue;
+            }
+
             if let Err(e) = self.real_next(tok.token, true) {
                 self.context.register_error(e);
             }
@@ -635,8 +641,7 @@ impl<'ctx> Preprocessor<'ctx> {
 
         // If we're inside an inactive #if, don't actually evaluate.
         // #ifdef FOO -- #if FOO == 5 will error otherwise.
-        if self.is_disabled() {
-            self.output.clear();
+        if disabled {
             return Ok(false);
         }
 
-- 
2.43.0


From 4cd2ad7bbf36e934e695ad503d1808b57afb518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 02/80] fix: abandon runaway recursive macro expansions instead
 of retrying exponentially

---
 crates/dreammaker/src/preprocessor.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 95d8fe7..58cfdfd 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -322,6 +322,13 @@ impl<'ctx> IncludeStack<'ctx> {
     fn in_expansion(&self) -> bool {
         matches!(self.stack.last(), Some(Include::Expansion { .. }))
     }
+
+    /// Abandon all macro expansions currently in progress in the top file.
+    fn abandon_expansion(&mut self) {
+        while self.in_expansion() {
+            self.stack.pop();
+        }
+    }
 }
 
 impl<'ctx> Iterator for IncludeStack<'ctx> {
@@ -1191,6 +1198,9 @@ impl<'ctx> Preprocessor<'ctx> {
                 let mut expansion = self.defines.get(ident).cloned(); // TODO: don't clone?
                 if expansion.is_some() && self.include_stack.stack.len() > MAX_RECURSION_DEPTH {
                     self.error(format!("expanding {ident:?} would exceed max recursion depth of {MAX_RECURSION_DEPTH} levels")).register(self.context);
+                    // Macros which mention themselves more than once would
+                    // otherwise take exponential time to finish expanding.
+                    self.include_stack.abandon_expansion();
                     expansion = None;
                 }
 
-- 
2.43.0


From 0283cf7ef3d20bb0b5bb9ee9943f113134c79617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 03/80] fix: bound the size of a macro expansion so recursive
 macros cannot exhaust memory

---
 crates/dreammaker/src/preprocessor.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 58cfdfd..4a5c3d7 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -19,6 +19,9 @@ use super::{Context, DMError, FileId, HasLocation, Location, Severity};
 /// The maximum recursion depth of macro expansion.
 const MAX_RECURSION_DEPTH: usize = 32;
 
+/// The maximum number of tokens a single macro invocation may expand to.
+const MAX_EXPANSION_TOKENS: usize = 1 << 20;
+
 // ----------------------------------------------------------------------------
 // Macro representation and predefined macros
 
@@ -1394,6 +1397,11 @@ impl<'ctx> Preprocessor<'ctx> {
                                 },
                                 _ => expansion.push_back(token),
                             }
+                            if expansion.len() > MAX_EXPANSION_TOKENS {
+                                let err = self.error(format!("expansion of {ident:?} is too large"));
+                                self.include_stack.abandon_expansion();
+                                return Err(err);
+                            }
                         }
                         self.include_stack.stack.push(Include::Expansion {
                             //name: ident.to_owned(),
-- 
2.43.0


From edb32be6702cb7f70b7c14c45115aaf0bbacabf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 04/80] fix: branch_at_end sees macros which were defined in
 included files

---
 crates/dreammaker/src/preprocessor.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 4a5c3d7..3a133dc 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -142,7 +142,16 @@ impl DefineHistory {
             include_locations: Default::default(),
             multiple_locations: Default::default(),
             history: Default::default(), // TODO: support branching a second time
-            defines: DefineMap::from_history(self, self.last_input_loc),
+            // Macros still defined at the end have an end location just beyond
+            // this one, even if they were defined in an `#include`d file.
+            defines: DefineMap::from_history(
+                self,
+                Location {
+                    file: FileId::default(),
+                    line: !0,
+                    column: 0,
+                },
+            ),
             maps: Default::default(),
             skins: Default::default(),
             scripts: Default::default(),
-- 
2.43.0


From a52ec100c9d6492e555acb43a10fd7f406cbc4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 05/80] fix: recognise a file included under a different
 relative spelling as the same file

---
 crates/dreammaker/src/preprocessor.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 3a133dc..650de39 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -2,7 +2,7 @@
 use std::borrow::Cow;
 use std::collections::VecDeque;
 use std::fs::File;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::rc::Rc;
 use std::{fmt, io};
 
@@ -321,6 +321,21 @@ struct IncludeStack<'ctx> {
     stack: Vec<Include<'ctx>>,
 }
 
+/// Lexically resolve `.` and `..` components.
+fn normalize_path(path: &Path) -> PathBuf {
+    let mut result = PathBuf::new();
+    for component in path.components() {
+        match (component, result.components().next_back()) {
+            (Component::CurDir, _) => {},
+            (Component::ParentDir, Some(Component::Normal(_))) => {
+                result.pop();
+            },
+            _ => result.push(component),
+        }
+    }
+    result
+}
+
 impl<'ctx> IncludeStack<'ctx> {
     fn top_file_path(&self) -> &Path {
         for each in self.stack.iter().rev() {
@@ -721,7 +736,8 @@ impl<'ctx> Preprocessor<'ctx> {
 
         // Make sure the file hasn't already been included.
         // All DM source is effectively `#pragma once`.
-        let file_id = self.context.register_file(register);
+        // Different spellings such as `a/../b.dm` and `b.dm` are the same file.
+        let file_id = self.context.register_file(&normalize_path(register));
         if let Some(&loc) = self.include_locations.get(&file_id) {
             if !self.multiple_locations.contains_key(&file_id) {
                 Err(
-- 
2.43.0


From e2b551a48928f75bb24f5f398050487b2568eab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 06/80] fix: a dedent narrower than one level closes the level
 instead of underflowing

---
 crates/dreammaker/src/indents.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/indents.rs b/crates/dreammaker/src/indents.rs
index 8487b4b..034fa47 100644
--- a/crates/dreammaker/src/indents.rs
+++ b/crates/dreammaker/src/indents.rs
@@ -132,7 +132,11 @@ where
                             .register(self.context)
                         }
                         new_indents = spaces / spaces_per_indent;
-                        self.current = Some((spaces_per_indent, new_indents));
+                        self.current = if new_indents == 0 {
+                            None
+                        } else {
+                            Some((spaces_per_indent, new_indents))
+                        };
                     }
                 },
             }
-- 
2.43.0


From 0f468dfe0a34c795aee198f8aa899ed3d52dabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 07/80] fix: a typed null constant equals null

---
 crates/dreammaker/src/constants.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index ad7a611..7d18173 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -814,6 +814,9 @@ impl<'a> ConstantFolder<'a> {
             (BinaryOp::Add, String(lhs), String(rhs)) => {
                 Ok(String((lhs.into_owned() + &rhs).into()))
             },
+            // The type hint a null may carry is not part of its value.
+            (BinaryOp::Eq, Constant::Null(_), Constant::Null(_)) => Ok(Constant::from(true)),
+            (BinaryOp::NotEq, Constant::Null(_), Constant::Null(_)) => Ok(Constant::from(false)),
             (BinaryOp::Eq, lhs, rhs) => Ok(Constant::from(lhs == rhs)),
             (BinaryOp::NotEq, lhs, rhs) => Ok(Constant::from(lhs != rhs)),
             (BinaryOp::And, lhs, rhs) => Ok(if lhs.to_bool() { rhs } else { lhs }),
-- 
2.43.0


From 57bd3c7d498f2393a7e4e9ad86032537d90895d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 08/80] fix: a failed constant is no longer reported as
 recursive by its users

---
 crates/dreammaker/src/constants.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index 7d18173..ae794b2 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -596,11 +596,12 @@ fn constant_ident_lookup(
         } else {
             Some(&type_hint)
         },
-    )?;
+    );
     // and store it into 'value', then return it
     let var = tree[ty].vars.get_mut(ident).unwrap();
-    var.value.constant = Some(value.clone());
     var.value.being_evaluated = false;
+    let value = value?;
+    var.value.constant = Some(value.clone());
     Ok(ConstLookup::Found(/*type_hint,*/ value))
 }
 
-- 
2.43.0


From 439cec2ee4a77372bd0c9a703720c3f54e8bbcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 09/80] fix: fold trigonometric functions in degrees

---
 crates/dreammaker/src/constants.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index ae794b2..dab1135 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -856,10 +856,11 @@ impl<'a> ConstantFolder<'a> {
                 "generator" => Constant::Call(ConstFn::Generator, self.arguments(args)?),
                 "vector" => Constant::Call(ConstFn::Vector, self.arguments(args)?),
                 // constant-evaluatable functions
-                "sin" => self.trig_op(args, f32::sin)?,
-                "cos" => self.trig_op(args, f32::cos)?,
-                "arcsin" => self.trig_op(args, f32::asin)?,
-                "arccos" => self.trig_op(args, f32::acos)?,
+                // DM trigonometry is in degrees
+                "sin" => self.trig_op(args, |f| f.to_radians().sin())?,
+                "cos" => self.trig_op(args, |f| f.to_radians().cos())?,
+                "arcsin" => self.trig_op(args, |f| f.asin().to_degrees())?,
+                "arccos" => self.trig_op(args, |f| f.acos().to_degrees())?,
                 "rgb" => Constant::String(self.rgb(args)?.into()),
                 "defined" if self.defines.is_some() => {
                     let defines = self.defines.unwrap(); // annoying, but keeps the match clean
-- 
2.43.0


From e9c7f6b07826d6ecc7c9ec5532630ed4eacaaedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 10/80] fix: break and report cycles in parent_type

---
 crates/dreammaker/src/objtree.rs | 35 +++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/crates/dreammaker/src/objtree.rs b/crates/dreammaker/src/objtree.rs
index 63b0b18..5c92673 100644
--- a/crates/dreammaker/src/objtree.rs
+++ b/crates/dreammaker/src/objtree.rs
@@ -1006,9 +1006,38 @@ impl ObjectTreeBuilder {
                 }
             };
 
-            let type_ref = &mut self.inner.graph[type_idx.index()];
-            type_ref.parent_type = idx;
-            if type_ref.parent_path != idx {
+            self.inner.graph[type_idx.index()].parent_type = idx;
+        }
+
+        // Break parent_type cycles, lest every walk up the tree loop forever.
+        for (path, &type_idx) in self.inner.types.iter() {
+            let mut current = self.inner.graph[type_idx.index()].parent_type;
+            let mut steps = 0;
+            while current != type_idx && steps <= self.inner.graph.len() {
+                match self.inner.graph.get(current.index()) {
+                    Some(ty) => current = ty.parent_type,
+                    None => break,
+                }
+                steps += 1;
+            }
+            if current == type_idx {
+                let type_ref = &mut self.inner.graph[type_idx.index()];
+                let location = match type_ref.vars.get("parent_type") {
+                    Some(var) => var.value.location,
+                    None => type_ref.location,
+                };
+                context.register_error(DMError::new(
+                    location,
+                    format!("cycle in parent_type of {path}"),
+                ));
+                // on bad parent_type, fall back to the root
+                type_ref.parent_type = NodeIndex::new(0);
+            }
+        }
+
+        for &type_idx in self.inner.types.values() {
+            let type_ref = &self.inner.graph[type_idx.index()];
+            if type_ref.parent_path != type_ref.parent_type {
                 self.inner.redirected_parent_types.push(type_idx);
             }
         }
-- 
2.43.0


From f558926a2d2e2bd49337661c889b642c11bc1c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 11/80] fix: whether y.x is a constant no longer depends on
 declaration order

---
 crates/dreammaker/src/constants.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index dab1135..8e1b622 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -545,6 +545,14 @@ fn constant_ident_lookup(
         let parent = type_.parent_type_index();
         match type_.vars.get_mut(ident) {
             None => return Ok(ConstLookup::Continue(parent)),
+            // Checked first so that the answer does not depend on whether the
+            // variable happens to have been evaluated already.
+            Some(var) if must_be_const && !decl.var_type.flags.is_const() => {
+                return Err(DMError::new(
+                    var.value.location,
+                    format!("non-const variable: {ident}"),
+                ));
+            },
             Some(var) => match var.value.constant.clone() {
                 Some(constant) => {
                     return Ok(ConstLookup::Found(
@@ -563,11 +571,6 @@ fn constant_ident_lookup(
                                 var.value.location,
                                 format!("non-const-evaluable variable: {ident}"),
                             ));
-                        } else if !decl.var_type.flags.is_const() && must_be_const {
-                            return Err(DMError::new(
-                                var.value.location,
-                                format!("non-const variable: {ident}"),
-                            ));
                         }
                         var.value.being_evaluated = true;
                         (var.value.location, decl.var_type.type_path, expr)
-- 
2.43.0


From f8c6d8849c6b315398dba0aa6d5df0025615e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 12/80] fix: keep string values intact when saving and loading
 maps

Strings with escaped quotes were written in the {"..."} form, which the
map reader cut short; tabs and the closing quote after a backslash pair
were also misread.
---
 crates/dmm-tools/src/dmm/read.rs | 81 ++++++++++++++++++++++++--------
 crates/dreammaker/src/lexer.rs   | 11 ++++-
 2 files changed, 70 insertions(+), 22 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index a1766d2..ce8b77c 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -10,6 +10,20 @@ use dm::{DMError, Location};
 
 use super::{Key, KeyType, Map, Prefab};
 
+/// The kind of string or resource literal being read, if any.
+#[derive(Clone, Copy, PartialEq)]
+enum Literal {
+    None,
+    /// `"..."` or `'...'`
+    Quoted(u8),
+    /// `{"..."}`
+    Long,
+    /// `@x...x`
+    Raw(u8),
+    /// `@{"..."}`
+    RawLong,
+}
+
 pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let file_id = Default::default();
     let mut chars = LocationTracker::new(file_id, dm::lexer::buffer_file(file_id, path)?.into());
@@ -25,12 +39,14 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let mut curr_key = 0;
     let mut curr_key_length = 0;
 
-    let mut in_quote_block = false;
+    let mut literal = Literal::None;
     let mut in_key_block = false;
     let mut in_data_block = false;
     let mut in_varedit_block = false;
     let mut after_data_block = false;
     let mut escaping = false;
+    let mut raw_pending = false; // the previous character was the `@` of a raw string
+    let mut quote_pending = false; // the previous character may begin a closing `"}`
     let mut skip_whitespace = false;
 
     let mut curr_key_start_location = Location::default();
@@ -65,7 +81,12 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     while let Some(ch) = chars.next() {
         // Readability, simple elif chain isn't duplicate code
         #[allow(clippy::if_same_then_else)]
-        if ch == b'\n' || ch == b'\r' {
+        if literal != Literal::None {
+            // The contents of literals are taken as they are.
+            if ch == b'\r' || (ch == b'\n' && matches!(literal, Literal::Quoted(_))) {
+                continue;
+            }
+        } else if ch == b'\n' || ch == b'\r' {
             in_comment_line = false;
             comment_trigger = false;
             continue;
@@ -75,7 +96,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
             continue;
         }
 
-        if ch == b'/' && !in_quote_block {
+        if ch == b'/' && literal == Literal::None {
             if comment_trigger {
                 in_comment_line = true;
                 continue;
@@ -88,35 +109,54 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
 
         if in_data_block {
             if in_varedit_block {
-                if in_quote_block {
-                    if ch == b'\\' {
-                        set_curr_datum_start_location!();
-                        curr_datum.push(ch);
-                        escaping = true;
-                    } else if escaping {
-                        set_curr_datum_start_location!();
-                        curr_datum.push(ch);
+                if literal != Literal::None {
+                    set_curr_datum_start_location!();
+                    curr_datum.push(ch);
+                    if escaping {
                         escaping = false;
-                    } else if ch == b'"' {
-                        set_curr_datum_start_location!();
-                        curr_datum.push(ch);
-                        in_quote_block = false;
+                        quote_pending = false;
+                    } else if ch == b'\\' && !matches!(literal, Literal::Raw(_) | Literal::RawLong) {
+                        escaping = true;
+                        quote_pending = false;
                     } else {
-                        set_curr_datum_start_location!();
-                        curr_datum.push(ch);
+                        match literal {
+                            Literal::Quoted(end) | Literal::Raw(end) => {
+                                if ch == end {
+                                    literal = Literal::None;
+                                }
+                            },
+                            _ => {
+                                if ch == b'}' && quote_pending {
+                                    literal = Literal::None;
+                                }
+                                quote_pending = ch == b'"';
+                            },
+                        }
                     }
                 } else {
-                    // in_quote_block
+                    // literal
                     if skip_whitespace && ch == b' ' {
                         skip_whitespace = false;
                         continue;
                     }
                     skip_whitespace = false;
 
-                    if ch == b'"' {
+                    let raw = take(&mut raw_pending);
+                    if ch == b'"' || ch == b'\'' || raw {
+                        literal = if ch == b'"' && curr_datum.ends_with(b"@{") {
+                            Literal::RawLong
+                        } else if ch == b'"' && curr_datum.ends_with(b"{") {
+                            Literal::Long
+                        } else if !raw {
+                            Literal::Quoted(ch)
+                        } else if ch == b'{' || ch == b'(' {
+                            Literal::None
+                        } else {
+                            Literal::Raw(ch)
+                        };
+                        quote_pending = false;
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
-                        in_quote_block = true;
                     } else if ch == b'=' && curr_var.is_empty() {
                         curr_var = take(&mut curr_datum);
                         let mut length = curr_var.len();
@@ -134,6 +174,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                         }
                         in_varedit_block = false;
                     } else {
+                        raw_pending = ch == b'@';
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
                     }
diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index b077da5..e638f51 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -362,9 +362,16 @@ pub struct Quote<'a>(pub &'a str);
 impl<'a> fmt::Display for Quote<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let s = self.0;
-        if s.contains("\"}") {
+        // Escape sequences are still in `s`, so an escaped quote needs nothing.
+        let mut escaped = false;
+        let bare_quote = s.chars().any(|ch| {
+            let bare = ch == '"' && !escaped;
+            escaped = ch == '\\' && !escaped;
+            bare
+        });
+        if bare_quote && s.contains("\"}") {
             write!(f, "@@{s}@")
-        } else if s.contains('"') || s.contains('\n') {
+        } else if bare_quote || s.contains('\n') {
             write!(f, "{{\"{s}\"}}")
         } else {
             write!(f, "\"{s}\"")
-- 
2.43.0


From 61ab40d9afe330925ab3da3a911feb960642748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 13/80] fix: print very small numbers and 999999-like mantissas
 correctly

---
 crates/dreammaker/src/lexer.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index e638f51..0e411d4 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -400,19 +400,24 @@ impl fmt::Display for FormatFloat {
         } else if n == 0.0 {
             f.write_str("0")
         } else {
-            let exp = n.abs().log10().floor();
-            let factor = 10.0f32.powf(5.0 - exp);
+            // f32 is too narrow for the intermediate results.
+            let n = f64::from(n);
+            let mut exp = n.abs().log10().floor();
+            let mut factor = 10.0f64.powf(5.0 - exp);
+            if (n * factor).abs().round() >= 1.0e6 {
+                exp += 1.0;
+                factor = 10.0f64.powf(5.0 - exp);
+            }
             if exp >= 6.0 || exp <= -5.0 {
-                let n2 = (n * factor).round() * 1.0e-5;
+                let digits = (n * factor).round();
+                let n2 = digits / 1.0e5;
                 let mut precision = 0;
-                while precision < 5
-                    && (n2 * 10.0f32.powi(precision)) != (n2 * 10.0f32.powi(precision)).round()
-                {
+                while precision < 5 && digits % 10.0f64.powi(5 - precision) != 0.0 {
                     precision += 1;
                 }
                 write!(f, "{:.*}e{:+04}", precision as usize, n2, exp)
             } else {
-                let n2 = (n * factor).round() / factor;
+                let n2 = ((n * factor).round() / factor) as f32;
                 write!(f, "{n2}")
             }
         }
-- 
2.43.0


From 8ebc575a3f8d4def46e684bcb44394b130d2e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:06 +0000
Subject: [PATCH 14/80] fix: report malformed maps as errors instead of
 panicking or dropping tiles

---
 crates/dmm-tools/src/dmm/read.rs | 104 +++++++++++++++++++++++++------
 1 file changed, 86 insertions(+), 18 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index ce8b77c..0190ee9 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -205,23 +205,37 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         } else if in_key_block {
             if ch == b'"' {
                 in_key_block = false;
-                assert!(map.key_length == 0 || map.key_length == curr_key_length);
+                if curr_key_length == 0
+                    || (map.key_length != 0 && map.key_length != curr_key_length)
+                {
+                    return Err(DMError::new(
+                        chars.location(),
+                        format!(
+                            "bad key length {curr_key_length}, expected {}",
+                            max(map.key_length, 1)
+                        ),
+                    ));
+                }
                 map.key_length = curr_key_length;
             } else {
                 if curr_key == 0 {
                     curr_key_start_location = chars.location();
                 }
                 curr_key = advance_key(chars.location(), curr_key, ch)?;
-                curr_key_length += 1;
+                curr_key_length = advance_key_length(chars.location(), curr_key_length)?;
             }
         } else if ch == b'"' {
             in_key_block = true;
             after_data_block = false;
+            curr_key = 0;
+            curr_key_length = 0;
         } else if ch == b'(' {
             if after_data_block {
                 curr_key = 0;
                 curr_key_length = 0;
                 break; // go to grid parsing
+            } else if curr_key_length == 0 {
+                return Err(DMError::new(chars.location(), "missing key"));
             } else {
                 in_data_block = true;
                 after_data_block = false;
@@ -229,6 +243,10 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         }
     }
 
+    if in_data_block || in_key_block {
+        return Err(DMError::new(chars.location(), "unexpected end of file"));
+    }
+
     // grid
     #[derive(PartialEq, Debug)]
     enum Coord {
@@ -246,6 +264,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
 
     let mut in_coord_block = true;
     let mut in_map_string = false;
+    let mut in_map_block = true;
     let mut adjust_y = true;
 
     while let Some(ch) = chars.next() {
@@ -267,14 +286,33 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                     ));
                 }
             } else if ch == b')' {
-                assert_eq!(reading_coord, Coord::Z);
+                if reading_coord != Coord::Z {
+                    return Err(DMError::new(
+                        chars.location(),
+                        "Incorrect number of coordinates",
+                    ));
+                }
                 curr_z = take(&mut curr_num);
+                if curr_x == 0 || curr_y == 0 || curr_z == 0 {
+                    return Err(DMError::new(
+                        chars.location(),
+                        format!("bad coordinates ({curr_x}, {curr_y}, {curr_z})"),
+                    ));
+                }
                 max_z = max(max_z, curr_z);
                 in_coord_block = false;
                 reading_coord = Coord::X;
             } else {
                 match (ch as char).to_digit(10) {
-                    Some(x) => curr_num = 10 * curr_num + x as usize,
+                    Some(x) => {
+                        curr_num = 10 * curr_num + x as usize;
+                        if curr_num > i32::MAX as usize {
+                            return Err(DMError::new(
+                                chars.location(),
+                                "map coordinate too large",
+                            ));
+                        }
+                    },
                     None => {
                         return Err(DMError::new(
                             chars.location(),
@@ -284,10 +322,20 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 }
             }
         } else if in_map_string {
+            if (ch == b'"' || ch == b'\n') && curr_key_length != 0 {
+                return Err(DMError::new(
+                    chars.location(),
+                    format!(
+                        "bad key length {curr_key_length}, expected {}",
+                        map.key_length
+                    ),
+                ));
+            }
+
             if ch == b'"' {
                 in_map_string = false;
+                in_map_block = false;
                 adjust_y = true;
-                curr_y -= 1;
             } else if ch == b'\r' {
                 // nothing
             } else if ch == b'\n' {
@@ -299,7 +347,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 curr_x = base_x;
             } else {
                 curr_key = advance_key(chars.location(), curr_key, ch)?;
-                curr_key_length += 1;
+                curr_key_length = advance_key_length(chars.location(), curr_key_length)?;
                 if curr_key_length == map.key_length {
                     let key = take(&mut curr_key);
                     curr_key_length = 0;
@@ -310,31 +358,51 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                         ));
                     }
                     max_x = max(max_x, curr_x);
+                    max_y = max(max_y, curr_y);
                     curr_x += 1;
                 }
             }
         } else if ch == b'(' {
             in_coord_block = true;
+            in_map_block = true;
         } else if ch == b'"' {
             in_map_string = true;
         }
     }
-    max_y = max(max_y, curr_y);
+    if in_map_block {
+        return Err(DMError::new(chars.location(), "unexpected end of file"));
+    }
 
-    let mut result = Ok(());
-    map.grid = Array3::from_shape_fn((max_z, max_y, max_x), |(z, y, x)| {
-        if let Some(&tile) = grid.get(&(x + 1, y + 1, z + 1)) {
-            tile
-        } else {
-            result = Err(DMError::new(
-                chars.location(),
-                format!("no value for tile ({}, {}, {})", x + 1, y + 1, z + 1),
-            ));
-            Key(0)
+    // Every entry lies within the bounds, so they're full if the count is right.
+    let volume = max_x
+        .checked_mul(max_y)
+        .and_then(|area| area.checked_mul(max_z));
+    if volume != Some(grid.len()) {
+        for z in 1..=max_z {
+            for y in 1..=max_y {
+                for x in 1..=max_x {
+                    if !grid.contains_key(&(x, y, z)) {
+                        return Err(DMError::new(
+                            chars.location(),
+                            format!("no value for tile ({x}, {y}, {z})"),
+                        ));
+                    }
+                }
+            }
         }
+    }
+    map.grid = Array3::from_shape_fn((max_z, max_y, max_x), |(z, y, x)| {
+        grid[&(x + 1, y + 1, z + 1)]
     });
 
-    result
+    Ok(())
+}
+
+fn advance_key_length(loc: Location, length: u8) -> Result<u8, DMError> {
+    if length >= super::MAX_KEY_LENGTH {
+        return Err(DMError::new(loc, "key too long"));
+    }
+    Ok(length + 1)
 }
 
 fn advance_key(loc: Location, curr_key: KeyType, ch: u8) -> Result<KeyType, DMError> {
-- 
2.43.0


From 7d16887458e7c29c8e026b66b669e74c40702d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 15/80] fix: Dir::clockwise_90 turns southwest to northwest

---
 crates/dreammaker/src/dmi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index e4b9d6e..dfd3f2b 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -172,7 +172,7 @@ impl Dir {
             Dir::Northeast => Dir::Southeast,
             Dir::Northwest => Dir::Northeast,
             Dir::Southeast => Dir::Southwest,
-            Dir::Southwest => Dir::Northeast,
+            Dir::Southwest => Dir::Northwest,
         }
     }
 
-- 
2.43.0


From 31f653bf3c3942c5cbd0f841b4f300a23bb7e406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:56 +0000
Subject: [PATCH 16/80] fix: a short delay list no longer drops an icon state's
 frames

---
 crates/dreammaker/src/dmi.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index dfd3f2b..1affa20 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -506,7 +506,8 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                         }
                     },
                     Frames::Count(n) => {
-                        vector.truncate(n);
+                        // Missing delays must not shorten the state.
+                        vector.resize(n, 1.);
                         if !vector.iter().all(|&n| n == 1.) {
                             state.frames = Frames::Delays(vector);
                         }
-- 
2.43.0


From 3c69e513e98ee16028bdfea2583f6e3cfbd3a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:23 +0000
Subject: [PATCH 17/80] fix: report malformed icon metadata as errors instead
 of panicking

---
 crates/dreammaker/src/dmi.rs | 67 ++++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 18 deletions(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index 1affa20..b0ff60a 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -317,6 +317,9 @@ impl Metadata {
         let icon_index = state.index_of_frame(dir, frame);
 
         let icon_count = bitmap_width / self.width;
+        if icon_count == 0 {
+            return None;
+        }
         let (icon_x, icon_y) = (icon_index % icon_count, icon_index / icon_count);
         Some((
             icon_x * self.width,
@@ -435,17 +438,29 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
         if line.starts_with("# END DMI") {
             break;
         }
-        let (key, value) = line.trim().split_once(" = ").unwrap();
+        let invalid = || {
+            io::Error::new(
+                io::ErrorKind::InvalidData,
+                format!("Invalid dmi metadata: {line:?}"),
+            )
+        };
+        let (key, value) = line.trim().split_once(" = ").ok_or_else(invalid)?;
         match key {
-            "width" => metadata.width = value.parse().unwrap(),
-            "height" => metadata.height = value.parse().unwrap(),
+            "width" => metadata.width = value.parse().map_err(|_| invalid())?,
+            "height" => metadata.height = value.parse().map_err(|_| invalid())?,
             "state" => {
                 if let Some(state) = state.take() {
                     frames_so_far += state.frames.count() * state.dirs.count();
                     metadata.states.push(state);
                 }
-                let unquoted = value[1..value.len() - 1].to_owned(); // TODO: unquote
-                assert!(!unquoted.contains('\\') && !unquoted.contains('"'));
+                let unquoted = value
+                    .strip_prefix('"')
+                    .and_then(|v| v.strip_suffix('"'))
+                    .ok_or_else(invalid)?
+                    .to_owned(); // TODO: unquote
+                if unquoted.contains('\\') || unquoted.contains('"') {
+                    return Err(invalid());
+                }
 
                 let count = duplicate_map.entry(unquoted.clone()).or_insert(0);
 
@@ -473,30 +488,31 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                 *count += 1;
             },
             "dirs" => {
-                let state = state.as_mut().unwrap();
-                let n: u8 = value.parse().unwrap();
+                let state = state.as_mut().ok_or_else(invalid)?;
+                let n: u8 = value.parse().map_err(|_| invalid())?;
                 state.dirs = match n {
                     1 => Dirs::One,
                     4 => Dirs::Four,
                     8 => Dirs::Eight,
-                    _ => panic!(),
+                    _ => return Err(invalid()),
                 };
             },
             "frames" => {
-                let state = state.as_mut().unwrap();
+                let state = state.as_mut().ok_or_else(invalid)?;
                 match state.frames {
                     Frames::One => {},
-                    _ => panic!(),
+                    _ => return Err(invalid()),
                 }
-                state.frames = Frames::Count(value.parse().unwrap());
+                let n: u16 = value.parse().map_err(|_| invalid())?;
+                state.frames = Frames::Count(n.into());
             },
             "delay" => {
-                let state = state.as_mut().unwrap();
+                let state = state.as_mut().ok_or_else(invalid)?;
                 let mut vector: Vec<f32> = value
                     .split(',')
                     .map(str::parse)
                     .collect::<Result<Vec<_>, _>>()
-                    .unwrap();
+                    .map_err(|_| invalid())?;
                 match state.frames {
                     Frames::One => {
                         if vector.iter().all(|&n| n == 1.) {
@@ -512,18 +528,33 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                             state.frames = Frames::Delays(vector);
                         }
                     },
-                    Frames::Delays(_) => panic!(),
+                    Frames::Delays(_) => return Err(invalid()),
                 }
             },
-            "loop" => state.as_mut().unwrap().loop_ = value.parse().unwrap(),
-            "rewind" => state.as_mut().unwrap().rewind = value.parse::<u8>().unwrap() != 0,
+            "loop" => {
+                state.as_mut().ok_or_else(invalid)?.loop_ = value.parse().map_err(|_| invalid())?
+            },
+            "rewind" => {
+                state.as_mut().ok_or_else(invalid)?.rewind =
+                    value.parse::<u8>().map_err(|_| invalid())? != 0
+            },
             "hotspot" => { /* TODO */ },
-            "movement" => state.as_mut().unwrap().movement = value.parse::<u8>().unwrap() != 0,
-            _ => panic!(),
+            "movement" => {
+                state.as_mut().ok_or_else(invalid)?.movement =
+                    value.parse::<u8>().map_err(|_| invalid())? != 0
+            },
+            _ => return Err(invalid()),
         }
     }
     metadata.states.extend(state);
 
+    if metadata.width == 0 || metadata.height == 0 {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            "Invalid dmi metadata: empty cells",
+        ));
+    }
+
     Ok(metadata)
 }
 
-- 
2.43.0


From e4b9d18f8b6060c7a9c52b62849b881532508b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:00 +0000
Subject: [PATCH 18/80] fix: process the token after a function-like macro's
 bare name normally

---
 crates/dreammaker/src/preprocessor.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 650de39..f22644f 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1252,16 +1252,21 @@ impl<'ctx> Preprocessor<'ctx> {
                         },
                     )) => {
                         // if it's not followed by an LParen, it isn't really a function call
-                        match next!() {
-                            Token::Punct(Punctuation::LParen) => {},
+                        match self.inner_next() {
+                            Some(LocatedToken {
+                                token: Token::Punct(Punctuation::LParen),
+                                ..
+                            }) => {},
                             other => {
                                 self.push_output(Token::Ident(ident.to_owned(), false));
-                                match other {
-                                    Token::InterpStringBegin(_) => self.in_interp_string += 1,
-                                    Token::InterpStringEnd(_) => self.in_interp_string -= 1,
-                                    _ => {},
+                                // Put it back, as it may be a macro itself or
+                                // the newline that ends an `#if`.
+                                if let Some(LocatedToken { location, token }) = other {
+                                    self.include_stack.stack.push(Include::Expansion {
+                                        tokens: VecDeque::from([token]),
+                                        location,
+                                    });
                                 }
-                                self.push_output(other);
                                 return Ok(());
                             },
                         }
-- 
2.43.0


From 84cb7dd2bf087fc2f0dc8e7c53e56d46693769ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:40 +0000
Subject: [PATCH 19/80] fix: colours no longer wrap around when translucent
 sprites overlap

---
 crates/dmm-tools/src/dmi.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/dmi.rs b/crates/dmm-tools/src/dmi.rs
index 8326c69..9835370 100644
--- a/crates/dmm-tools/src/dmi.rs
+++ b/crates/dmm-tools/src/dmi.rs
@@ -215,9 +215,11 @@ impl Image {
                 let out_a = src_tint.a + mul255(dst.a, 255 - src_tint.a);
                 if out_a != 0 {
                     for i in 0..3 {
+                        // out_a was rounded down, so the quotient may exceed 255
                         dst[i] = ((src_tint[i] as u32 * src_tint.a as u32
                             + dst[i] as u32 * dst.a as u32 * (255 - src_tint.a as u32) / 255)
-                            / out_a as u32) as u8;
+                            / out_a as u32)
+                            .min(255) as u8;
                     }
                 } else {
                     for i in 0..3 {
-- 
2.43.0


From ab4832a1f358a71f00eae74e9d8657dbbecbaa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 20/80] fix: check no-sleep procs which another no-sleep proc
 calls

---
 crates/dreamchecker/src/lib.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 5af8d51..a4fd279 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -759,10 +759,6 @@ impl<'o> AnalyzeObjectTree<'o> {
         let mut must_not_sleep: Vec<_> = self.must_not_sleep.directive.iter().collect();
         must_not_sleep.sort_by_key(|(procref, _)| procref.get().location);
         for (procref, &(_, location)) in must_not_sleep {
-            if !visited.insert(*procref) {
-                continue;
-            }
-
             if let Some(sleepvec) = self.sleeping_procs.get_violators(*procref) {
                 error(
                     procref.get().location,
-- 
2.43.0


From b6b328f785ec125301ab977cf43b9da6e8b28de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:49 +0000
Subject: [PATCH 21/80] fix: follow a call again when it may dispatch to other
 overrides than before

---
 crates/dreamchecker/src/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index a4fd279..0846537 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -753,7 +753,10 @@ impl<'o> AnalyzeObjectTree<'o> {
             .iter_types()
             .flat_map(|type_ref: TypeRef| type_ref.iter_self_procs())
             .count();
-        let mut visited = HashSet::<ProcRef<'o>>::with_capacity(total_procs);
+        // What a visit finds depends on the receiver and on whether overrides
+        // are dispatched to, not only on the proc.
+        let mut visited = HashSet::<(ProcRef<'o>, TypeRef<'o>, bool)>::with_capacity(total_procs);
+        let mut reported = HashSet::<ProcRef<'o>>::new();
         let mut to_visit =
             VecDeque::<(ProcRef<'o>, CallStack, bool, ProcRef<'o>, TypeRef<'o>, bool)>::new();
         let mut must_not_sleep: Vec<_> = self.must_not_sleep.directive.iter().collect();
@@ -800,7 +803,13 @@ impl<'o> AnalyzeObjectTree<'o> {
                 if new_context {
                     continue;
                 }
-                if !visited.insert(nextproc) {
+                // Global procs have no receiver.
+                let receiver = if nextproc.ty().is_root() {
+                    nextproc.ty()
+                } else {
+                    receiver
+                };
+                if !visited.insert((nextproc, receiver, is_exact)) {
                     continue;
                 }
                 if self.waitfor_procs.contains(&nextproc) {
@@ -815,6 +824,11 @@ impl<'o> AnalyzeObjectTree<'o> {
                 }
 
                 if let Some(sleepvec) = self.sleeping_procs.get_violators(nextproc) {
+                    // Each sleeping proc is reported only once.
+                    if !reported.insert(nextproc) {
+                        continue;
+                    }
+
                     let parent_proc_type_index = parent_proc.ty().index();
                     let next_proc_type_index = nextproc.ty().index();
 
-- 
2.43.0


From 73cb5842a22fbca898d10b2af7a20a048799d085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:58 +0000
Subject: [PATCH 22/80] fix: resolve calls on the caller's own object from the
 type it is known to have

---
 crates/dreamchecker/src/lib.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 0846537..bc42596 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -607,6 +607,17 @@ struct CallEdge<'o> {
     inherit_receiver: bool,
 }
 
+impl<'o> CallEdge<'o> {
+    /// The proc this edge leads to when taken by an object of the given type.
+    fn proc_on(&self, receiver: TypeRef<'o>) -> ProcRef<'o> {
+        if self.inherit_receiver && !self.is_exact && !self.proc.ty().is_root() {
+            receiver.get_proc(self.proc.name()).unwrap_or(self.proc)
+        } else {
+            self.proc
+        }
+    }
+}
+
 /// A deeper analysis of an ObjectTree
 pub struct AnalyzeObjectTree<'o> {
     context: &'o Context,
@@ -778,18 +789,19 @@ impl<'o> AnalyzeObjectTree<'o> {
             let procref_type = procref.ty();
             if let Some(calledvec) = self.call_tree.get(procref) {
                 for each in calledvec.iter() {
-                    let mut newstack = CallStack::default();
-                    newstack.add_step(each.proc, each.location, each.new_context);
                     let receiver = if each.inherit_receiver {
                         procref_type
                     } else {
                         each.src
                     };
+                    let proc = each.proc_on(receiver);
+                    let mut newstack = CallStack::default();
+                    newstack.add_step(proc, each.location, each.new_context);
                     to_visit.push_back((
-                        each.proc,
+                        proc,
                         newstack,
                         each.new_context,
-                        each.proc,
+                        proc,
                         receiver,
                         each.is_exact,
                     ));
@@ -879,19 +891,20 @@ impl<'o> AnalyzeObjectTree<'o> {
 
                 if let Some(calledvec) = self.call_tree.get(&nextproc) {
                     for each in calledvec.iter() {
-                        let mut newstack = callstack.clone();
-                        newstack.add_step(each.proc, each.location, each.new_context);
                         // Self-calls inherit this receiver; explicit calls use their own.
                         let call_receiver = if each.inherit_receiver {
                             receiver
                         } else {
                             each.src
                         };
+                        let proc = each.proc_on(call_receiver);
+                        let mut newstack = callstack.clone();
+                        newstack.add_step(proc, each.location, each.new_context);
                         to_visit.push_back((
-                            each.proc,
+                            proc,
                             newstack,
                             each.new_context,
-                            each.proc,
+                            proc,
                             call_receiver,
                             each.is_exact,
                         ));
-- 
2.43.0


From 9aed78bb5b86d1f26b7f21b4b4a23400740e0595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 23/80] fix: output to typed lists and to subtypes of mob is
 impure as well

---
 crates/dreamchecker/src/lib.rs | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index bc42596..01a75b2 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2229,24 +2229,21 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             } => {
                 let lty = self.visit_expression(location, lhs, None, local_vars);
 
-                if lty.static_ty == StaticType::Type(self.objtree.expect("/mob")) {
-                    self.env.impure_procs.insert_violator(
-                        self.proc_ref,
-                        "LShift onto mob",
-                        location,
-                    );
-                } else if lty.static_ty == StaticType::Type(self.objtree.expect("/savefile")) {
-                    self.env.impure_procs.insert_violator(
-                        self.proc_ref,
-                        "LShift onto savefile",
-                        location,
-                    );
-                } else if lty.static_ty == StaticType::Type(self.objtree.expect("/list")) {
-                    self.env.impure_procs.insert_violator(
-                        self.proc_ref,
-                        "LShift onto list",
-                        location,
-                    );
+                if let Some(ty) = lty.static_ty.basic_type() {
+                    let target = if ty.is_subtype_of(&self.objtree.expect("/mob")) {
+                        Some("LShift onto mob")
+                    } else if ty.is_subtype_of(&self.objtree.expect("/savefile")) {
+                        Some("LShift onto savefile")
+                    } else if ty.is_subtype_of(&self.objtree.expect("/list")) {
+                        Some("LShift onto list")
+                    } else {
+                        None
+                    };
+                    if let Some(desc) = target {
+                        self.env
+                            .impure_procs
+                            .insert_violator(self.proc_ref, desc, location);
+                    }
                 }
 
                 let rty = self.visit_expression(location, rhs, None, local_vars);
-- 
2.43.0


From 34added590659cc20b58c6c44017798fdf76fc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:11 +0000
Subject: [PATCH 24/80] fix: follow purity through the object a call is made
 on, not only the root's type

---
 crates/dreamchecker/src/lib.rs | 45 +++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 01a75b2..75ec986 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -929,32 +929,48 @@ impl<'o> AnalyzeObjectTree<'o> {
                 .with_impure_operations(impurevec)
                 .register(self.context)
             }
-            let mut visited = HashSet::<ProcRef<'o>>::new();
-            let mut to_visit = VecDeque::<(ProcRef<'o>, CallStack)>::new();
+            let mut visited = HashSet::<(ProcRef<'o>, TypeRef<'o>)>::new();
+            let mut reported = HashSet::<ProcRef<'o>>::new();
+            let mut to_visit = VecDeque::<(ProcRef<'o>, CallStack, TypeRef<'o>)>::new();
             if let Some(procscalled) = self.call_tree.get(procref) {
                 for each in procscalled {
+                    let receiver = if each.inherit_receiver {
+                        procref.ty()
+                    } else {
+                        each.src
+                    };
+                    let proc = each.proc_on(receiver);
                     let mut callstack = CallStack::default();
-                    callstack.add_step(each.proc, each.location, each.new_context);
-                    to_visit.push_back((each.proc, callstack));
+                    callstack.add_step(proc, each.location, each.new_context);
+                    to_visit.push_back((proc, callstack, receiver));
                 }
             }
-            while let Some((nextproc, callstack)) = to_visit.pop_front() {
-                if !visited.insert(nextproc) {
+            while let Some((nextproc, callstack, receiver)) = to_visit.pop_front() {
+                // Global procs have no receiver.
+                let receiver = if nextproc.ty().is_root() {
+                    nextproc.ty()
+                } else {
+                    receiver
+                };
+                if !visited.insert((nextproc, receiver)) {
                     continue;
                 }
                 if let Some(impurevec) = self.impure_procs.get_violators(nextproc) {
-                    error(procref.get().location, format!("{procref} sets SpacemanDMM_should_be_pure but calls a {nextproc} that does impure operations"))
+                    if reported.insert(nextproc) {
+                        error(procref.get().location, format!("{procref} sets SpacemanDMM_should_be_pure but calls a {nextproc} that does impure operations"))
                         .with_note(*location, "SpacemanDMM_should_be_pure set here")
                         .with_errortype("must_be_pure")
                         .with_callstack(&callstack)
                         .with_impure_operations(impurevec)
                         .register(self.context)
+                    }
                 } else if let Some(overrideimpure) =
                     self.impure_overrides.get_override_violators(nextproc)
                 {
                     for child_violator in overrideimpure {
-                        if procref.ty().is_subtype_of(&nextproc.ty())
-                            && !child_violator.ty().is_subtype_of(&procref.ty())
+                        // Only overrides at or below the receiver type can be called.
+                        if !child_violator.ty().is_subtype_of(&receiver)
+                            || !reported.insert(*child_violator)
                         {
                             continue;
                         }
@@ -968,9 +984,16 @@ impl<'o> AnalyzeObjectTree<'o> {
                 }
                 if let Some(calledvec) = self.call_tree.get(&nextproc) {
                     for each in calledvec.iter() {
+                        // Self-calls inherit this receiver; explicit calls use their own.
+                        let call_receiver = if each.inherit_receiver {
+                            receiver
+                        } else {
+                            each.src
+                        };
+                        let proc = each.proc_on(call_receiver);
                         let mut newstack = callstack.clone();
-                        newstack.add_step(each.proc, *location, each.new_context);
-                        to_visit.push_back((each.proc, newstack));
+                        newstack.add_step(proc, *location, each.new_context);
+                        to_visit.push_back((proc, newstack, call_receiver));
                     }
                 }
             }
-- 
2.43.0


From 4f505ec36c8172c9db7a1dfcb7f8c10502929863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 25/80] fix: changing a local initialized from an impure value
 is pure

---
 crates/dreamchecker/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 75ec986..28fef62 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2224,6 +2224,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             None => Analysis::null(),
         };
         analysis.static_ty = static_type;
+        // A local is pure to change no matter what it was initialized from.
+        analysis.is_impure = None;
 
         // Save var to locals
         local_vars.insert(name.clone(), LocalVar { location, analysis });
-- 
2.43.0


From 12500f92eca51c447614580dfab323b025823e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 26/80] fix: changing a var through src, global or another
 impure value is impure

---
 crates/dreamchecker/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 28fef62..c16fb55 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1500,7 +1500,10 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             Analysis::from_static_type(self.objtree.expect("/callee")).into(),
         );
         if !self.ty.is_root() {
-            local_vars.insert("src".into(), Analysis::from_static_type(self.ty).into());
+            local_vars.insert(
+                "src".into(),
+                Analysis::from_static_type_impure(self.ty).into(),
+            );
         }
         local_vars.insert(
             "global".into(),
@@ -2893,8 +2896,12 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                             .with_note(decl.location, "definition is here")
                             .register(self.context);
                         }
-                        self.static_type(location, &decl.var_type.type_path)
-                            .with_fix_hint(decl.location, "add additional type info here")
+                        let mut analysis = self
+                            .static_type(location, &decl.var_type.type_path)
+                            .with_fix_hint(decl.location, "add additional type info here");
+                        // A var of an impure value is impure to change too.
+                        analysis.is_impure = lhs.is_impure;
+                        analysis
                     } else {
                         error(location, format!("undefined field: {name:?} on {ty}"))
                             .register(self.context);
-- 
2.43.0


From 715d4eac1f82c63f9e8946cf1d828b21af4bb1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:16 +0000
Subject: [PATCH 27/80] fix: look at the arguments of new for types without New
 and for variables

---
 crates/dreamchecker/src/lib.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index c16fb55..236dd97 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2614,8 +2614,11 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     Analysis::empty()
                 }
             },
-            Term::NewMiniExpr { .. } => {
+            Term::NewMiniExpr { args, .. } => {
                 // TODO: evaluate
+                if let Some(args) = args {
+                    self.visit_arguments(location, args, local_vars);
+                }
                 Analysis::empty()
             },
 
@@ -2761,16 +2764,21 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 false,
                 local_vars,
             );
-        } else if typepath.path != "/list"
-            && typepath.path != "/alist"
-            && typepath.path != "/vector"
-            && typepath.path != "/pixloc"
-        {
-            error(
-                location,
-                format!("couldn't find {}/proc/New", typepath.path),
-            )
-            .register(self.context);
+        } else {
+            if let Some(args) = args {
+                self.visit_arguments(location, args, local_vars);
+            }
+            if typepath.path != "/list"
+                && typepath.path != "/alist"
+                && typepath.path != "/vector"
+                && typepath.path != "/pixloc"
+            {
+                error(
+                    location,
+                    format!("couldn't find {}/proc/New", typepath.path),
+                )
+                .register(self.context);
+            }
         }
         assumption_set![Assumption::IsType(true, typepath)].into()
     }
-- 
2.43.0


From 3d441102cbea07009029341288e8998bbfe61194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:17 +0000
Subject: [PATCH 28/80] fix: code after a loop is not unreachable when a break
 leads there

---
 crates/dreamchecker/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 236dd97..f0021c4 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1782,6 +1782,10 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         "do while terminates without ever reaching condition",
                     )
                     .register(self.context);
+                    if !state.returns {
+                        // A break leads to what follows the loop.
+                        state.end_loop();
+                    }
                     return state;
                 }
                 self.visit_expression(
@@ -1964,7 +1968,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                     "for range loop body is never reached due to invalid range",
                                 )
                                 .register(self.context);
-                            } else {
+                            } else if step.is_none() && state.returns && !state.fuzzy {
+                                // The body runs at least once.
                                 return state;
                             }
                         }
-- 
2.43.0


From 4aef998b59a6accd70e6be34d9dd6dfe409f46eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:28 +0000
Subject: [PATCH 29/80] fix: breaks and continues in labelled blocks, try
 blocks and inner loops are not forgotten

---
 crates/dreamchecker/src/lib.rs | 38 +++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index f0021c4..266351a 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1427,6 +1427,12 @@ impl ControlFlow {
         }
     }
 
+    /// Forget how a block ends, except that it may jump out of a loop.
+    fn only_jumps(&mut self) {
+        self.fuzzy |= self.breaks || self.continues;
+        self.no_else();
+    }
+
     pub fn end_loop(&mut self) {
         self.returns = false;
         self.continues = false;
@@ -1458,6 +1464,8 @@ struct AnalyzeProc<'o, 's> {
     proc_ref: ProcRef<'o>,
     calls_parent: bool,
     inside_newcontext: u32,
+    /// The labels of enclosing blocks which were jumped to.
+    jumps: Vec<&'o Ident>,
 }
 
 impl<'o, 's> AnalyzeProc<'o, 's> {
@@ -1477,6 +1485,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             proc_ref,
             calls_parent: false,
             inside_newcontext: 0,
+            jumps: Vec::new(),
         }
     }
 
@@ -1775,8 +1784,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             },
             Statement::DoWhile { block, condition } => {
                 let mut scoped_locals = local_vars.clone();
+                let jumps = self.jumps.len();
                 let mut state = self.visit_block(block, &mut scoped_locals, false);
-                if state.terminates_loop() {
+                if state.terminates_loop() && self.jumps.len() == jumps {
                     error(
                         location,
                         "do while terminates without ever reaching condition",
@@ -1958,6 +1968,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, name, Some(start), &mut scoped_locals);
                 }
+                let jumps = self.jumps.len();
                 let mut state = self.visit_block(block, &mut scoped_locals, false);
                 if let Some(startterm) = start.as_term() {
                     if let Some(endterm) = end.as_term() {
@@ -1968,7 +1979,11 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                     "for range loop body is never reached due to invalid range",
                                 )
                                 .register(self.context);
-                            } else if step.is_none() && state.returns && !state.fuzzy {
+                            } else if step.is_none()
+                                && state.returns
+                                && !state.fuzzy
+                                && self.jumps.len() == jumps
+                            {
                                 // The body runs at least once.
                                 return state;
                             }
@@ -2070,7 +2085,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 catch_params,
                 catch_block,
             } => {
-                self.visit_block(try_block, &mut local_vars.clone(), false);
+                let mut state = self.visit_block(try_block, &mut local_vars.clone(), false);
                 if catch_params.len() > 1 {
                     error(
                         location,
@@ -2095,9 +2110,12 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     let var_type: VarType = type_path.iter().map(ToOwned::to_owned).collect();
                     self.visit_var(location, &var_type, var_name, None, &mut catch_locals);
                 }
-                self.visit_block(catch_block, &mut catch_locals, false);
+                state.merge(self.visit_block(catch_block, &mut catch_locals, false));
+                state.only_jumps();
+                return state;
             },
-            Statement::Continue(_) => {
+            Statement::Continue(label) => {
+                self.jumps.extend(label);
                 return ControlFlow {
                     returns: false,
                     continues: true,
@@ -2105,7 +2123,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     fuzzy: true,
                 };
             },
-            Statement::Break(_) => {
+            Statement::Break(label) => {
+                self.jumps.extend(label);
                 return ControlFlow {
                     returns: false,
                     continues: false,
@@ -2114,8 +2133,11 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 };
             },
             Statement::Goto(_) => {},
-            Statement::Label { name: _, block } => {
-                self.visit_block(block, &mut local_vars.clone(), false);
+            Statement::Label { name, block } => {
+                let mut state = self.visit_block(block, &mut local_vars.clone(), false);
+                self.jumps.retain(|&jump| jump != name);
+                state.only_jumps();
+                return state;
             },
             Statement::Del(expr) => {
                 self.visit_expression(location, expr, None, local_vars);
-- 
2.43.0


From da6f0f3dec816252ec3bd3cfacdc1dfc3f435b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 30/80] fix: whether a private or protected var may be used is
 decided by the type declaring it

---
 crates/dreamchecker/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 266351a..2b8c81f 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2910,7 +2910,12 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         // Or maybe we should also handle new procpath() returning a procpath.
                         Analysis::from(StaticType::Proc)
                     } else if let Some(decl) = ty.get_var_declaration(name) {
-                        if ty != self.ty && decl.var_type.flags.is_private() {
+                        let declared_by = |parent: &TypeRef| {
+                            let var = parent.vars.get(name);
+                            var.is_some_and(|var| var.declaration.is_some())
+                        };
+                        let owner = ty.iter_parent_types().find(declared_by).unwrap_or(ty);
+                        if owner != self.ty && decl.var_type.flags.is_private() {
                             error(
                                 location,
                                 format!("field {name:?} on {ty} is declared as private"),
@@ -2919,7 +2924,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                             .set_severity(Severity::Warning)
                             .with_note(decl.location, "definition is here")
                             .register(self.context);
-                        } else if !self.ty.is_subtype_of(ty.get())
+                        } else if !self.ty.is_subtype_of(owner.get())
                             && decl.var_type.flags.is_protected()
                         {
                             error(
-- 
2.43.0


From 32fb48171c04c42d663ee3d977d225b6310be96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:21 +0000
Subject: [PATCH 31/80] fix: apply document changes inside their lines, and
 forget what was known of older text

---
 crates/dm-langserver/src/document.rs | 34 ++++++++++++++++++++--------
 crates/dm-langserver/src/main.rs     |  8 ++++---
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/crates/dm-langserver/src/document.rs b/crates/dm-langserver/src/document.rs
index b5f96c4..a41d89a 100644
--- a/crates/dm-langserver/src/document.rs
+++ b/crates/dm-langserver/src/document.rs
@@ -142,9 +142,8 @@ impl Document {
             },
         };
 
-        let start_pos = total_offset(&self.text, range.start.line, range.start.character)?;
-        let end_pos = total_offset(&self.text, range.end.line, range.end.character)?;
-        Rc::make_mut(&mut self.text).replace_range(start_pos..end_pos, &change.text);
+        let range = range_offsets(&self.text, range)?;
+        Rc::make_mut(&mut self.text).replace_range(range, &change.text);
         Ok(())
     }
 }
@@ -166,8 +165,16 @@ fn line_offset(text: &str, line_number: u32) -> Result<usize, jsonrpc::Error> {
 fn total_offset(text: &str, line: u32, mut character: u32) -> Result<usize, jsonrpc::Error> {
     let start = line_offset(text, line)?;
 
+    // "If the character value is greater than the line length it defaults back
+    // to the line length."
+    let mut line_text = &text[start..];
+    if let Some(end) = line_text.find('\n') {
+        line_text = &line_text[..end];
+        line_text = line_text.strip_suffix('\r').unwrap_or(line_text);
+    }
+
     // column is measured in UTF-16 code units, which is really inconvenient.
-    let mut chars = text[start..].chars();
+    let mut chars = line_text.chars();
     while character > 0 {
         if let Some(ch) = chars.next() {
             character = character.saturating_sub(ch.len_utf16() as u32);
@@ -175,7 +182,19 @@ fn total_offset(text: &str, line: u32, mut character: u32) -> Result<usize, json
             break;
         }
     }
-    Ok(text.len() - chars.as_str().len())
+    Ok(start + line_text.len() - chars.as_str().len())
+}
+
+fn range_offsets(
+    text: &str,
+    range: lsp_types::Range,
+) -> Result<std::ops::Range<usize>, jsonrpc::Error> {
+    let start = total_offset(text, range.start.line, range.start.character)?;
+    let end = total_offset(text, range.end.line, range.end.character)?;
+    if start > end {
+        return Err(invalid_request("range ends before it starts"));
+    }
+    Ok(start..end)
 }
 
 // Reverse of the above.
@@ -199,10 +218,7 @@ pub fn offset_to_position(text: &str, offset: usize) -> lsp_types::Position {
 }
 
 pub fn get_range(text: &str, range: lsp_types::Range) -> Result<&str, jsonrpc::Error> {
-    Ok(
-        &text[total_offset(text, range.start.line, range.start.character)?
-            ..total_offset(text, range.end.line, range.end.character)?],
-    )
+    Ok(&text[range_offsets(text, range)?])
 }
 
 pub fn find_word(text: &str, offset: usize) -> &str {
diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index ec3beb8..d68d9d8 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -2508,6 +2508,8 @@ impl Engine {
     // ------------------------------------------------------------------------
     // document content management
     fn DidOpenTextDocument(&mut self, params: N<DidOpenTextDocument>) -> NR {
+        // Forget what was known of the text on disk, or of the last version.
+        self.annotations.remove(&params.text_document.uri);
         self.docs.open(params.text_document)?;
         Ok(())
     }
@@ -2519,10 +2521,10 @@ impl Engine {
     }
 
     fn DidChangeTextDocument(&mut self, params: N<DidChangeTextDocument>) -> NR {
-        let url = self
-            .docs
+        // Even if it fails in the end, some of the changes may have been applied.
+        self.annotations.remove(&params.text_document.uri);
+        self.docs
             .change(params.text_document, params.content_changes)?;
-        self.annotations.remove(&url);
         Ok(())
     }
 
-- 
2.43.0


From f35fce973dd1242d2a45bc74942b6301089d7f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:21 +0000
Subject: [PATCH 32/80] langserver: verif/text request under cfg(verif_hooks)

---
 crates/dm-langserver/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index d68d9d8..f58ccce 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -1278,6 +1278,12 @@ impl Engine {
         }
 
         let params_value = params_to_value(call.params);
+        #[cfg(verif_hooks)]
+        if call.method == "verif/text" {
+            let (url,) = serde_json::from_value(params_value).map_err(invalid_request)?;
+            let text = self.docs.get_contents(&url).map_err(invalid_request)?;
+            return Ok(serde_json::Value::String(text.into_owned()));
+        }
         if let Some(func) = Self::handle_method_call_table(&call.method) {
             func(self, params_value)
         } else {
-- 
2.43.0


From 7b62db42c4ea5a2b1ef33b6066bcd458d42024eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:21 +0000
Subject: [PATCH 33/80] fix: match type paths in canSmoothWith lists when
 smoothing icons

---
 crates/dmm-tools/src/render_passes/icon_smoothing.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing.rs b/crates/dmm-tools/src/render_passes/icon_smoothing.rs
index 3c92ae2..3d0d18f 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing.rs
@@ -2,6 +2,7 @@
 
 use crate::dmi::Dir;
 use crate::minimap::{Atom, GetVar, Neighborhood, Sprite};
+use dm::ast::FormatTreePath;
 use dm::constants::Constant;
 use dm::objtree::ObjectTree;
 
@@ -157,12 +158,10 @@ fn find_type_in_direction(
 }
 
 fn smoothlist_contains(list: &[(Constant, Option<Constant>)], desired: &str) -> bool {
-    for (key, _) in list {
-        if key == desired {
-            return true;
-        }
-    }
-    false
+    list.iter().any(|(key, _)| match key {
+        Constant::Prefab(pop) => FormatTreePath(&pop.path).to_string() == desired,
+        _ => key == desired,
+    })
 }
 
 fn cardinal_smooth<'a>(
-- 
2.43.0


From a9e589543594145b0640a958678cf5109781132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:21 +0000
Subject: [PATCH 34/80] fix: do not smooth objects which can be unanchored and
 are not anchored

---
 crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs | 2 +-
 crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs b/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
index aff702f..a170c70 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing_2020.rs
@@ -103,7 +103,7 @@ fn calculate_adjacencies(
 ) -> i32 {
     // Easier to read as a nested conditional
     #[allow(clippy::collapsible_if)]
-    if atom.istype("/atom/movable/") {
+    if atom.istype("/atom/movable/") || atom.istype("/obj/") || atom.istype("/mob/") {
         if atom.get_var("can_be_unanchored", objtree).to_bool()
             && !atom.get_var("anchored", objtree).to_bool()
         {
diff --git a/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs b/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
index bcdcaba..3c68a4c 100644
--- a/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
+++ b/crates/dmm-tools/src/render_passes/icon_smoothing_2025.rs
@@ -92,7 +92,7 @@ fn calculate_adjacencies(
 ) -> i32 {
     // Easier to read as a nested conditional
     #[allow(clippy::collapsible_if)]
-    if atom.istype("/atom/movable/") {
+    if atom.istype("/atom/movable/") || atom.istype("/obj/") || atom.istype("/mob/") {
         if atom.get_var("can_be_unanchored", objtree).to_bool()
             && !atom.get_var("anchored", objtree).to_bool()
         {
-- 
2.43.0


From 0f0f1f157bbf48b3b86dcb6a249dd8abde0ea990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:33 +0000
Subject: [PATCH 35/80] fix: keep line comments apart around an empty block
 comment

---
 crates/dreammaker/src/docs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/dreammaker/src/docs.rs b/crates/dreammaker/src/docs.rs
index 3c4dc14..2d24ed6 100644
--- a/crates/dreammaker/src/docs.rs
+++ b/crates/dreammaker/src/docs.rs
@@ -35,13 +35,13 @@ impl DocCollection {
         for each in self.elems.iter() {
             match each.kind {
                 CommentKind::Block => {
+                    if each.is_empty() {
+                        continue;
+                    }
                     if !line_comments.is_empty() {
                         simplify(&mut output, &line_comments, '/');
                         line_comments.clear();
                     }
-                    if each.is_empty() {
-                        continue;
-                    }
                     // block comments are always paragraphs
                     output.push('\n');
                     if simplify(&mut output, &each.text, '*') {
-- 
2.43.0


From 354faa54d0e0d09b084b5905aa1f311c4985c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:33 +0000
Subject: [PATCH 36/80] fix: keep doc comments before an #if or #elif for what
 follows it

---
 crates/dreammaker/src/preprocessor.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index f22644f..38ed8fd 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -692,14 +692,19 @@ impl<'ctx> Preprocessor<'ctx> {
     }
 
     fn evaluate(&mut self) -> bool {
+        // Doc comments before the directive are not part of its condition, they
+        // are for whatever follows it.
+        let docs_in = std::mem::take(&mut self.docs_in);
         // always succeed in order to avoid phantom "unmatched #endif" messages
-        match self.evaluate_inner() {
+        let value = match self.evaluate_inner() {
             Ok(value) => value,
             Err(err) => {
                 self.context.register_error(err);
                 false
             },
-        }
+        };
+        self.docs_in = docs_in;
+        value
     }
 
     // ------------------------------------------------------------------------
-- 
2.43.0


From d6caa9e827d3728e50ff9595362f6cd87ba4e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:33 +0000
Subject: [PATCH 37/80] fix: take all lines of //! comments at the start of a
 block

---
 crates/dreammaker/src/parser.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 77ec4b6..9397539 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -654,6 +654,23 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         self.next_comment_of_target(DocTarget::EnclosingItem)
     }
 
+    /// Collect the `//!` comments at the start of a block. Each may be on a
+    /// line of its own, which the line's `;` ends.
+    fn block_doc_comments(&mut self, docs: &mut DocCollection) -> Status<()> {
+        let mut in_line = false;
+        loop {
+            if let Some(comment) = self.enclosing_doc_comment()? {
+                docs.push(comment);
+                in_line = true;
+            } else if in_line && self.next == Some(Token::Punct(Punctuation::Semicolon)) {
+                self.take();
+                in_line = false;
+            } else {
+                return SUCCESS;
+            }
+        }
+    }
+
     // ------------------------------------------------------------------------
     // Object tree - root
 
@@ -929,9 +946,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                 let start = self.updated_location();
 
                 // Inside-block `//!` comments for types.
-                while let Some(comment) = self.enclosing_doc_comment()? {
-                    docs.push(comment);
-                }
+                self.block_doc_comments(&mut docs)?;
                 if !docs.is_empty() && (proc_builder.is_some() || var_type.is_some()) {
                     // Can't apply docs to `var/` or `proc/` blocks.
                     DMError::new(
@@ -1219,9 +1234,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             body_tt.push(LocatedToken::new(self.location, Punct(LBrace)));
 
             // enclosing doc comments `//!` can appear after the `{`
-            while let Some(comment) = self.enclosing_doc_comment()? {
-                docs.push(comment);
-            }
+            self.block_doc_comments(&mut docs)?;
 
             // read the rest of the line
             while self.exact(Punct(RBrace))?.is_none() {
-- 
2.43.0


From 3ef5a04638ff11586de8196d8d9ad5139de1ccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:33 +0000
Subject: [PATCH 38/80] fix: locate the end of the last line there, not at the
 end of the file

---
 crates/dreammaker/src/indents.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/indents.rs b/crates/dreammaker/src/indents.rs
index 034fa47..758bf93 100644
--- a/crates/dreammaker/src/indents.rs
+++ b/crates/dreammaker/src/indents.rs
@@ -222,10 +222,10 @@ where
             } else if self.eof_yielded {
                 return None;
             } else {
-                self.push(Token::Punct(Punctuation::Semicolon));
+                self.push_semicolon();
                 if let Some((_, indents)) = self.current {
                     for _ in 0..indents {
-                        self.push(Token::Punct(Punctuation::RBrace));
+                        self.push_eol(Token::Punct(Punctuation::RBrace));
                     }
                 }
                 self.current = None;
-- 
2.43.0


From 688c062aba5a45a9e8b290fd764bcf463ce74531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:47 +0000
Subject: [PATCH 39/80] fix: check overrides against keyword arguments of calls
 on types which inherit the proc

---
 crates/dreamchecker/src/lib.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 2b8c81f..b930a6d 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1136,13 +1136,23 @@ impl<'o> AnalyzeObjectTree<'o> {
 
     /// Check and build a list of bad overrides of kwargs for a ProcRef
     pub fn check_kwargs(&mut self, proc: ProcRef) {
+        // Earlier definitions on the same type are only run by `..()`.
+        if !proc.is_externally_visible() {
+            return;
+        }
+
         let param_names: HashSet<&Ident> = proc.parameters.iter().map(|p| &p.name).collect();
 
         // Start at the parent - calls which immediately resolve to bad kwargs
-        // error earlier in the process.
-        let mut next = proc.parent_proc();
-        while let Some(current) = next {
-            if let Some(kwargs) = self.used_kwargs.get_mut(&current.to_string()) {
+        // error earlier in the process. Calls are recorded by the type they
+        // are made on, which might only inherit the proc.
+        let mut next = proc.ty().parent_type();
+        while let Some(ty) = next.filter(|ty| {
+            ty.get_proc(proc.name())
+                .is_some_and(|parent| !parent.ty().is_root())
+        }) {
+            let called = format!("{}/proc/{}", ty, proc.name());
+            if let Some(kwargs) = self.used_kwargs.get_mut(&called) {
                 let mut missing = Vec::new();
 
                 for (keyword, location) in kwargs.called_at.iter() {
@@ -1161,7 +1171,7 @@ impl<'o> AnalyzeObjectTree<'o> {
                     );
                 }
             }
-            next = current.parent_proc();
+            next = ty.parent_type();
         }
     }
 
-- 
2.43.0


From a2c6372aab467b21c3de9c9ade60967112414664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:39 +0000
Subject: [PATCH 40/80] fix: report a block left open at the end of the file
 instead of panicking

---
 crates/dreammaker/src/parser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 9397539..eb45bcd 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -705,7 +705,6 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             }
 
             take_match!(self {
-                Token::Eof => break,
                 tok if tok == &terminator => break,
                 Token::Punct(Punctuation::Semicolon) => continue,
             } else {
-- 
2.43.0


From a1d37a6b4c82228c969e10a72c02f0f543f32999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:39 +0000
Subject: [PATCH 41/80] fix: do not underflow when a string's start went into a
 directive

---
 crates/dreammaker/src/preprocessor.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 38ed8fd..404a661 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1449,7 +1449,10 @@ impl<'ctx> Preprocessor<'ctx> {
                 }
             },
             Token::InterpStringBegin(_) => self.in_interp_string += 1,
-            Token::InterpStringEnd(_) => self.in_interp_string -= 1,
+            // the start may have gone into a directive
+            Token::InterpStringEnd(_) => {
+                self.in_interp_string = self.in_interp_string.saturating_sub(1)
+            },
             // documentation is accumulated, and flushed if no #define follows
             Token::DocComment(doc) if doc.target == DocTarget::FollowingItem => {
                 self.docs_in.push_back((self.last_input_loc, doc));
-- 
2.43.0


From c25b223ad160ea57112d87ee68e8c8370cc078b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:39 +0000
Subject: [PATCH 42/80] fix: take brackets in the text of #warn and #error as
 they stand

---
 crates/dreammaker/src/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index 0e411d4..27beb45 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -1054,7 +1054,8 @@ impl<'ctx> Lexer<'ctx> {
                     buf.push(ch);
                 },
                 // `backslash` is false hereafter
-                b'[' => {
+                // the text of a `#warn` or `#error` is taken as it stands
+                b'[' if end != b"\n" => {
                     self.interp_stack.push(Interpolation {
                         end,
                         bracket_depth: 1,
-- 
2.43.0


From 3bf9a55c80112ebcf7784600dc3d21f11acca7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:39 +0000
Subject: [PATCH 43/80] fix: let a #warn or #error end the file without a
 newline

---
 crates/dreammaker/src/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index 27beb45..9e7924b 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -1016,6 +1016,8 @@ impl<'ctx> Lexer<'ctx> {
         loop {
             let ch = match self.next() {
                 Some(ch) => ch,
+                // the last line of a file needs no newline
+                None if end == b"\n" => break,
                 None => {
                     self.context
                         .register_error(DMError::new(start_loc, "unterminated string literal"));
-- 
2.43.0


From 8857a10cfe30e64c608f5e04a357df515ca2b5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 44/80] fix: know the names of operator** and operator>= as
 procs

---
 crates/dreammaker/src/intern.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dreammaker/src/intern.rs b/crates/dreammaker/src/intern.rs
index cef3b7f..bcd7172 100644
--- a/crates/dreammaker/src/intern.rs
+++ b/crates/dreammaker/src/intern.rs
@@ -487,6 +487,7 @@ static STATIC_IDENTS: Set<&'static str> = phf_set! {
     "operator[]",
     "operator[]=",
     "operator*",
+    "operator**",
     "operator*=",
     "operator/",
     "operator/=",
@@ -508,6 +509,7 @@ static STATIC_IDENTS: Set<&'static str> = phf_set! {
     "operator<=",
     "operator<=>",
     "operator>",
+    "operator>=",
     "operator>>",
     "operator>>=",
     "operator|",
-- 
2.43.0


From de4bbe1c080f6dc39ec36981d3a3bf94bb7ab12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:21 +0000
Subject: [PATCH 45/80] fix: check the variable and start of for loops which do
 not declare it

---
 crates/dreamchecker/src/lib.rs | 87 ++++++++++++++++++++++------------
 1 file changed, 58 insertions(+), 29 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index b930a6d..9df37a2 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1956,6 +1956,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, name, None, &mut scoped_locals);
+                } else {
+                    self.visit_loop_var(location, name, &scoped_locals);
                 }
                 let mut state = self.visit_block(block, &mut scoped_locals, false);
                 state.end_loop();
@@ -1977,6 +1979,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, name, Some(start), &mut scoped_locals);
+                } else {
+                    self.visit_expression(location, start, None, &mut scoped_locals);
+                    self.visit_loop_var(location, name, &scoped_locals);
                 }
                 let jumps = self.jumps.len();
                 let mut state = self.visit_block(block, &mut scoped_locals, false);
@@ -2214,6 +2219,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 // only the type of the key is taken into account
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, key, None, &mut scoped_locals);
+                } else {
+                    self.visit_loop_var(location, key, &scoped_locals);
                 }
                 // the "v" in a DM for (var/k, v) statement is essentially typeless.
                 // There is currently no way to change that.
@@ -2479,35 +2486,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             ),
             Term::As(_) => assumption_set![Assumption::IsNum(true)].into(),
 
-            Term::Ident(unscoped_name) => {
-                if let Some(var) = local_vars.get(unscoped_name) {
-                    var.analysis
-                        .clone()
-                        .with_fix_hint(var.location, "add additional type info here")
-                } else if unscoped_name == "type" {
-                    // Strictly speaking "type" might be any subset of our current type, but let's return something useful
-                    // so that `nameof(type::foo)` is sensible.
-                    let ty = self.ty;
-                    let pop = dm::constants::Pop::from_path_str(&ty.path);
-                    Analysis {
-                        static_ty: StaticType::None,
-                        aset: assumption_set![Assumption::IsPath(true, ty)],
-                        value: Some(Constant::Prefab(Box::new(pop))),
-                        fix_hint: None,
-                        is_impure: None,
-                    }
-                } else if let Some(decl) = self.ty.get_var_declaration(unscoped_name) {
-                    let mut ana = self
-                        .static_type(location, &decl.var_type.type_path)
-                        .with_fix_hint(decl.location, "add additional type info here");
-                    ana.is_impure = Some(true);
-                    ana
-                } else {
-                    error(location, format!("undefined var: {unscoped_name:?}"))
-                        .register(self.context);
-                    Analysis::empty()
-                }
-            },
+            Term::Ident(unscoped_name) => self.visit_ident(location, unscoped_name, local_vars),
             Term::GlobalIdent(global_name) => {
                 if let Some(decl) = self.objtree.root().get_var_declaration(global_name) {
                     let mut ana = self
@@ -2782,6 +2761,56 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
         }
     }
 
+    fn visit_ident(
+        &mut self,
+        location: Location,
+        unscoped_name: &str,
+        local_vars: &HashMap<Ident, LocalVar<'o>>,
+    ) -> Analysis<'o> {
+        if let Some(var) = local_vars.get(unscoped_name) {
+            var.analysis
+                .clone()
+                .with_fix_hint(var.location, "add additional type info here")
+        } else if unscoped_name == "type" {
+            // Strictly speaking "type" might be any subset of our current type, but let's return something useful
+            // so that `nameof(type::foo)` is sensible.
+            let ty = self.ty;
+            let pop = dm::constants::Pop::from_path_str(&ty.path);
+            Analysis {
+                static_ty: StaticType::None,
+                aset: assumption_set![Assumption::IsPath(true, ty)],
+                value: Some(Constant::Prefab(Box::new(pop))),
+                fix_hint: None,
+                is_impure: None,
+            }
+        } else if let Some(decl) = self.ty.get_var_declaration(unscoped_name) {
+            let mut ana = self
+                .static_type(location, &decl.var_type.type_path)
+                .with_fix_hint(decl.location, "add additional type info here");
+            ana.is_impure = Some(true);
+            ana
+        } else {
+            error(location, format!("undefined var: {unscoped_name:?}")).register(self.context);
+            Analysis::empty()
+        }
+    }
+
+    /// Visit the variable of a loop which does not declare it itself.
+    fn visit_loop_var(
+        &mut self,
+        location: Location,
+        name: &Ident,
+        local_vars: &HashMap<Ident, LocalVar<'o>>,
+    ) {
+        if let Some(true) = self.visit_ident(location, name, local_vars).is_impure {
+            self.env.impure_procs.insert_violator(
+                self.proc_ref,
+                "Assignment on purity breaking expression",
+                location,
+            );
+        }
+    }
+
     fn visit_new(
         &mut self,
         location: Location,
-- 
2.43.0


From b329e8026b6051013fa0d359031d7dfc274053ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:21 +0000
Subject: [PATCH 46/80] fix: take a value found through operator[] to be what
 that returns

---
 crates/dreamchecker/src/lib.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 9df37a2..6740a5a 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2911,6 +2911,14 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             },
 
             Follow::Index(_, expr) => {
+                if let StaticType::Type(typeref) = lhs.static_ty {
+                    if let Some(proc) = typeref.get_proc("operator[]") {
+                        // What is found at the index is what the operator returns.
+                        let args = std::slice::from_ref(&**expr);
+                        return self
+                            .visit_call(location, typeref, proc, args, false, false, local_vars);
+                    }
+                }
                 self.visit_expression(location, expr, None, local_vars);
                 // TODO: differentiate between L[1] and L[non_numeric_key]
                 match lhs.static_ty {
@@ -2923,12 +2931,10 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         res
                     },
                     StaticType::Type(typeref) => {
-                        if typeref.get_proc("operator[]").is_none() {
-                            error(location, format!("invalid list access on {}", typeref.path))
-                                .with_errortype("improper_index")
-                                .register(self.context);
-                        }
-                        lhs.clone()
+                        error(location, format!("invalid list access on {}", typeref.path))
+                            .with_errortype("improper_index")
+                            .register(self.context);
+                        Analysis::empty()
                     },
                     _ => lhs.clone(), // carry through fix_hint
                 }
-- 
2.43.0


From 7fe4b71a1021002fcdc1ec3752721629b131f7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:32 +0000
Subject: [PATCH 47/80] fix: visit the left side of a << statement once

---
 crates/dreamchecker/src/lib.rs | 55 +++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 6740a5a..4ec4460 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1731,7 +1731,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         lhs,
                         rhs,
                     } => {
-                        let lhsanalysis = self.visit_expression(location, lhs, None, local_vars);
+                        let (lhsanalysis, _) = self.visit_lshift(location, lhs, rhs, local_vars);
                         if let Some(impurity) = lhsanalysis.is_impure {
                             if impurity {
                                 self.env.impure_procs.insert_violator(
@@ -1741,6 +1741,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                 );
                             }
                         }
+                        return ControlFlow::allfalse();
                     },
                     _ => {},
                 }
@@ -2299,26 +2300,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 lhs,
                 rhs,
             } => {
-                let lty = self.visit_expression(location, lhs, None, local_vars);
-
-                if let Some(ty) = lty.static_ty.basic_type() {
-                    let target = if ty.is_subtype_of(&self.objtree.expect("/mob")) {
-                        Some("LShift onto mob")
-                    } else if ty.is_subtype_of(&self.objtree.expect("/savefile")) {
-                        Some("LShift onto savefile")
-                    } else if ty.is_subtype_of(&self.objtree.expect("/list")) {
-                        Some("LShift onto list")
-                    } else {
-                        None
-                    };
-                    if let Some(desc) = target {
-                        self.env
-                            .impure_procs
-                            .insert_violator(self.proc_ref, desc, location);
-                    }
-                }
-
-                let rty = self.visit_expression(location, rhs, None, local_vars);
+                let (lty, rty) = self.visit_lshift(location, lhs, rhs, local_vars);
                 self.visit_binary(lty, rty, BinaryOp::LShift)
             },
             Expression::BinaryOp {
@@ -2459,6 +2441,37 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
         }
     }
 
+    /// Visit both sides of a `<<`, which writes to some types of objects.
+    fn visit_lshift(
+        &mut self,
+        location: Location,
+        lhs: &'o Expression,
+        rhs: &'o Expression,
+        local_vars: &mut HashMap<Ident, LocalVar<'o>>,
+    ) -> (Analysis<'o>, Analysis<'o>) {
+        let lty = self.visit_expression(location, lhs, None, local_vars);
+
+        if let Some(ty) = lty.static_ty.basic_type() {
+            let target = if ty.is_subtype_of(&self.objtree.expect("/mob")) {
+                Some("LShift onto mob")
+            } else if ty.is_subtype_of(&self.objtree.expect("/savefile")) {
+                Some("LShift onto savefile")
+            } else if ty.is_subtype_of(&self.objtree.expect("/list")) {
+                Some("LShift onto list")
+            } else {
+                None
+            };
+            if let Some(desc) = target {
+                self.env
+                    .impure_procs
+                    .insert_violator(self.proc_ref, desc, location);
+            }
+        }
+
+        let rty = self.visit_expression(location, rhs, None, local_vars);
+        (lty, rty)
+    }
+
     fn visit_term(
         &mut self,
         location: Location,
-- 
2.43.0


From ff73ed023f66c5d653dd894a48123e1cbc481e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:44 +0000
Subject: [PATCH 48/80] fix: find references within CRASH()

---
 crates/dm-langserver/src/find_references.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/find_references.rs b/crates/dm-langserver/src/find_references.rs
index 9f446d2..70b247f 100644
--- a/crates/dm-langserver/src/find_references.rs
+++ b/crates/dm-langserver/src/find_references.rs
@@ -392,7 +392,11 @@ impl<'o> WalkProc<'o> {
             Statement::Continue(_) => {},
             Statement::Break(_) => {},
             Statement::Goto(_) => {},
-            Statement::Crash(_) => {},
+            Statement::Crash(expr) => {
+                if let Some(expr) = expr {
+                    self.visit_expression(location, expr, None);
+                }
+            },
             Statement::Label { name: _, block } => self.visit_block(block),
             Statement::Del(expr) => {
                 self.visit_expression(location, expr, None);
-- 
2.43.0


From c4b79e4dd603f97e9e6076091bcd16eb98e876f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:44 +0000
Subject: [PATCH 49/80] fix: find references to the variable and start of for
 loops which do not declare it

---
 crates/dm-langserver/src/find_references.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/dm-langserver/src/find_references.rs b/crates/dm-langserver/src/find_references.rs
index 70b247f..fe87420 100644
--- a/crates/dm-langserver/src/find_references.rs
+++ b/crates/dm-langserver/src/find_references.rs
@@ -311,6 +311,8 @@ impl<'o> WalkProc<'o> {
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, name, None);
+                } else {
+                    self.visit_ident(location, name);
                 }
                 self.visit_block(block);
             },
@@ -329,6 +331,9 @@ impl<'o> WalkProc<'o> {
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, name, Some(start));
+                } else {
+                    self.visit_ident(location, name);
+                    self.visit_expression(location, start, None);
                 }
                 self.visit_block(block);
             },
-- 
2.43.0


From 4f1b1b36bc58763a9eae0070a5c0399858e2a222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:44 +0000
Subject: [PATCH 50/80] fix: find references in the arguments of calls whose
 proc is not known

---
 crates/dm-langserver/src/find_references.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/dm-langserver/src/find_references.rs b/crates/dm-langserver/src/find_references.rs
index fe87420..e771e6c 100644
--- a/crates/dm-langserver/src/find_references.rs
+++ b/crates/dm-langserver/src/find_references.rs
@@ -564,6 +564,7 @@ impl<'o> WalkProc<'o> {
                 if let Some(proc) = self.ty.get_proc(unscoped_name) {
                     self.visit_call(location, src, proc, args, false)
                 } else {
+                    self.visit_arguments(location, args);
                     StaticType::None
                 }
             },
@@ -573,6 +574,7 @@ impl<'o> WalkProc<'o> {
                     // Self calls are exact, and won't ever call an override.
                     self.visit_call(location, src, proc, args, true)
                 } else {
+                    self.visit_arguments(location, args);
                     StaticType::None
                 }
             },
@@ -583,6 +585,7 @@ impl<'o> WalkProc<'o> {
                     // Parent calls are exact, and won't ever call an override.
                     self.visit_call(location, src, proc, args, true)
                 } else {
+                    self.visit_arguments(location, args);
                     StaticType::None
                 }
             },
-- 
2.43.0


From 9f353299fc049bbc23a2f9d22a4e5980907ff210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:21 +0000
Subject: [PATCH 51/80] fix: keep the variable of a catch block in scope for
 the editor

---
 crates/dreammaker/src/parser.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index eb45bcd..20ca744 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1820,17 +1820,32 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             let try_block = require!(self.block(loop_ctx));
             self.skip_phantom_semicolons()?;
             require!(self.exact_ident("catch"));
+            let mut caught = Vec::new();
             let catch_params = if let Some(()) = self.exact(Token::Punct(Punctuation::LParen))? {
                 require!(
                     self.separated(Punctuation::Comma, Punctuation::RParen, None, |this| {
                         // TODO: improve upon this cheap approximation
-                        success(leading!(this.tree_path(true)).1.into_boxed_slice())
+                        let loc = this.updated_location();
+                        let path = leading!(this.tree_path(true)).1.into_boxed_slice();
+                        if let Some((name, mut type_path)) = path.split_last() {
+                            if let Some(("var", rest)) =
+                                type_path.split_first().map(|(f, r)| (f.as_str(), r))
+                            {
+                                type_path = rest;
+                            }
+                            let var_type: VarType = type_path.iter().cloned().collect();
+                            caught.push((loc, var_type, name.clone()));
+                        }
+                        success(path)
                     })
                 )
             } else {
                 Vec::new()
             };
             let catch_block = require!(self.block(loop_ctx));
+            for (loc, var_type, name) in caught {
+                self.annotate(loc, || Annotation::LocalVarScope(var_type, name));
+            }
             spanned(Statement::TryCatch {
                 try_block,
                 catch_params: catch_params.into_boxed_slice(),
-- 
2.43.0


From 031ba685170a8c043f21e6869f210d12eeb795f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:15 +0000
Subject: [PATCH 52/80] fix: end the scope of a for loop's variables with the
 loop for the editor

---
 crates/dreammaker/src/parser.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 20ca744..b4b027d 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1491,7 +1491,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                 } else if let Some(()) = self.exact(Token::Punct(Punctuation::Semicolon))? {
                     continue;
                 } else {
-                    statements.push(require!(self.statement(loop_ctx, &mut vars)));
+                    statements.push(require!(self.scoped_statement(loop_ctx, &mut vars)));
                 }
             }
             statements
@@ -1500,7 +1500,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             Vec::new()
         } else {
             // and one-line blocks: if(1) neat();
-            let statement = require!(self.statement(loop_ctx, &mut vars));
+            let statement = require!(self.scoped_statement(loop_ctx, &mut vars));
             vec![statement]
         };
         for (loc, var_type, name) in vars {
@@ -1509,6 +1509,26 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
         success(result.into_boxed_slice())
     }
 
+    /// Parse a statement. The variables of a for loop go out of scope with it.
+    fn scoped_statement(
+        &mut self,
+        loop_ctx: &LoopContext,
+        vars: &mut Vec<(Location, VarType, Ident)>,
+    ) -> Status<Spanned<Statement>> {
+        let outer = vars.len();
+        let statement = leading!(self.statement(loop_ctx, vars));
+        if let Statement::ForLoop { .. }
+        | Statement::ForList(_)
+        | Statement::ForKeyValue(_)
+        | Statement::ForRange(_) = statement.elem
+        {
+            for (loc, var_type, name) in vars.drain(outer..) {
+                self.annotate(loc, || Annotation::LocalVarScope(var_type, name));
+            }
+        }
+        success(statement)
+    }
+
     fn statement(
         &mut self,
         loop_ctx: &LoopContext,
-- 
2.43.0


From d109945e3f90f4c1885db89084632053bcf6eb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:16 +0000
Subject: [PATCH 53/80] fix: keep the value variable of a for loop in scope for
 the editor

---
 crates/dreammaker/src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index b4b027d..878669d 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1656,6 +1656,10 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                             };
                             // Value is the lhs of for(k, [v in x])
                             // It should also pass only if it's an ident
+                            let value_loc = match &*lhs {
+                                Expression::Base { term, .. } => term.location,
+                                _ => start,
+                            };
                             let value = match lhs.into_term() {
                                 Some(Term::Ident(value)) => value,
                                 _ => return Err(self.error(
@@ -1664,6 +1668,9 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                             };
                             // TODO : check if `x` is an ident/a "list()" or "alist()" statement ?
                             require!(self.exact(Token::Punct(Punctuation::RParen)));
+                            if self.annotations.is_some() {
+                                vars.push((value_loc, VarType::default(), value.clone()));
+                            }
                             // Returns a for(k,v)
                             spanned(Statement::ForKeyValue(Box::new(ForKeyValueStatement {
                                 var_type,
-- 
2.43.0


From 3c30ef2efc6fb151b5dd45df52e6e2368f1b8c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:36 +0000
Subject: [PATCH 54/80] fix: let references to a name end with the block of the
 local variable which hides it

---
 crates/dm-langserver/src/find_references.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/find_references.rs b/crates/dm-langserver/src/find_references.rs
index e771e6c..663f290 100644
--- a/crates/dm-langserver/src/find_references.rs
+++ b/crates/dm-langserver/src/find_references.rs
@@ -138,6 +138,7 @@ impl<'o> StaticType<'o> {
     }
 }
 
+#[derive(Clone)]
 struct Local<'o> {
     ty: StaticType<'o>,
     symbol: SymbolId,
@@ -241,9 +242,23 @@ impl<'o> WalkProc<'o> {
     }
 
     fn visit_block(&mut self, block: &'o [Spanned<Statement>]) {
+        let outer = self.local_vars.clone();
         for stmt in block.iter() {
-            self.visit_statement(stmt.location, &stmt.elem);
+            match stmt.elem {
+                // These declare variables which only exist in their blocks.
+                Statement::ForLoop { .. }
+                | Statement::ForList(_)
+                | Statement::ForRange(_)
+                | Statement::ForKeyValue(_)
+                | Statement::TryCatch { .. } => {
+                    let outer = self.local_vars.clone();
+                    self.visit_statement(stmt.location, &stmt.elem);
+                    self.local_vars = outer;
+                },
+                _ => self.visit_statement(stmt.location, &stmt.elem),
+            }
         }
+        self.local_vars = outer;
     }
 
     fn visit_statement(&mut self, location: Location, statement: &'o Statement) {
-- 
2.43.0


From ad9b64cec73b13e08ae64beaa3d99904650ccc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:14 +0000
Subject: [PATCH 55/80] fix: paste an integer onto an identifier in a macro
 body

---
 crates/dreammaker/src/preprocessor.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 404a661..7860c6a 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1370,6 +1370,13 @@ impl<'ctx> Preprocessor<'ctx> {
                                                 ws,
                                             )),
                                         },
+                                        (
+                                            Some(Token::Ident(first, ws)),
+                                            Some(Token::Int(second)),
+                                        ) => expansion.push_back(Token::Ident(
+                                            format!("{first}{second}").into(),
+                                            ws,
+                                        )),
                                         (non_ident_first, Some(Token::Ident(second, ws))) => {
                                             expansion.extend(non_ident_first);
                                             match params.iter().position(|x| *x == second) {
-- 
2.43.0


From 61c6c8c2a4e9d55786446d9f940c954d78abca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:31 +0000
Subject: [PATCH 56/80] fix: offer no globals as members of an untyped variable

---
 crates/dm-langserver/src/main.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index f58ccce..4e5a218 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -927,6 +927,14 @@ impl Engine {
         I: Iterator<Item = (Span, &'b Annotation)> + Clone,
     {
         let (mut next, proc_name) = self.find_type_context(iter);
+        // an untyped variable has no members, in particular not the globals
+        let declared_type = |var_type: &dm::ast::VarType| {
+            if var_type.type_path.is_empty() {
+                None
+            } else {
+                self.objtree.type_by_path(var_type.type_path.iter())
+            }
+        };
         // find the first; check the global scope, parameters, and "src"
         let mut priors = priors.iter();
         let first = match priors.next() {
@@ -945,16 +953,12 @@ impl Engine {
             next = self.objtree.find("/callee");
         } else {
             next = match self.find_unscoped_var(iter, next, proc_name, first) {
-                UnscopedVar::Parameter { param, .. } => {
-                    self.objtree.type_by_path(param.var_type.type_path.iter())
-                },
+                UnscopedVar::Parameter { param, .. } => declared_type(&param.var_type),
                 UnscopedVar::Variable { ty, .. } => match ty.get_var_declaration(first) {
-                    Some(decl) => self.objtree.type_by_path(decl.var_type.type_path.iter()),
+                    Some(decl) => declared_type(&decl.var_type),
                     None => None,
                 },
-                UnscopedVar::Local { var_type, .. } => {
-                    self.objtree.type_by_path(var_type.type_path.iter())
-                },
+                UnscopedVar::Local { var_type, .. } => declared_type(var_type),
                 UnscopedVar::None => None,
             };
         }
@@ -963,7 +967,7 @@ impl Engine {
         for var_name in priors {
             if let Some(current) = next.take() {
                 if let Some(decl) = current.get_var_declaration(var_name) {
-                    next = self.objtree.type_by_path(decl.var_type.type_path.iter());
+                    next = declared_type(&decl.var_type);
                 }
             } else {
                 break;
-- 
2.43.0


From 3ec2b1045ec456ce4bd436a0a2e6aa4a9f2e1e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:02 +0000
Subject: [PATCH 57/80] fix: complete the path of a proc which the type
 overrides without declaring it

---
 crates/dm-langserver/src/completion.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/dm-langserver/src/completion.rs b/crates/dm-langserver/src/completion.rs
index 5c3f1b9..e39ff4d 100644
--- a/crates/dm-langserver/src/completion.rs
+++ b/crates/dm-langserver/src/completion.rs
@@ -369,14 +369,14 @@ impl Engine {
                 while let Some(ty) = next {
                     // reference a declared proc
                     for (name, proc) in ty.get().procs.iter() {
-                        if !skip.insert(("proc", name)) {
-                            continue;
-                        }
                         // declarations only
                         let proc_decl = match proc.declaration.as_ref() {
                             Some(decl) => decl,
                             None => continue,
                         };
+                        if !skip.insert(("proc", name)) {
+                            continue;
+                        }
                         if proc_decl.kind.is_verb() != (decl == "verb") {
                             continue;
                         }
-- 
2.43.0


From 8c562f0bc674bb5addbe8bea3484f14d384228cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:02 +0000
Subject: [PATCH 58/80] fix: offer no globals as overrides on a type

---
 crates/dm-langserver/src/completion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/completion.rs b/crates/dm-langserver/src/completion.rs
index e39ff4d..67d88ba 100644
--- a/crates/dm-langserver/src/completion.rs
+++ b/crates/dm-langserver/src/completion.rs
@@ -312,7 +312,7 @@ impl Engine {
                     });
                 }
             }
-            next = ty.parent_type();
+            next = ty.parent_type_without_root();
         }
     }
 
-- 
2.43.0


From 484af97eb9f6bc4fe7af4c2ca14db67753fbe8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:56 +0000
Subject: [PATCH 59/80] fix: forget what was known of the files when the
 project is read anew

---
 crates/dm-langserver/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 4e5a218..b112303 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -2498,6 +2498,8 @@ impl Engine {
         eprintln!();
         eprintln!("reparsing by request...");
         self.context.errors_mut().clear();
+        // The files may have changed on disk, and the macros they see with them.
+        self.annotations.clear();
         self.Initialized(_p)
     }
 
-- 
2.43.0


From 68fb7311a8a7a606d2b58fa7a4eca1e8d8c2bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:15 +0000
Subject: [PATCH 60/80] fix: locate a switch case at its condition and not
 after its block

---
 crates/dreammaker/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 878669d..7a8e69b 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1816,6 +1816,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             let default = loop {
                 if let Some(()) = self.exact_ident("if")? {
                     require!(self.exact(Token::Punct(Punctuation::LParen)));
+                    let location = self.location();
                     let what = require!(self.separated(
                         Punctuation::Comma,
                         Punctuation::RParen,
@@ -1827,7 +1828,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                             .register_error(self.error("switch case cannot be empty"));
                     }
                     let block = require!(self.block(loop_ctx));
-                    cases.push((Spanned::new(self.location(), what), block));
+                    cases.push((Spanned::new(location, what), block));
                 } else if let Some(()) = self.exact_ident("else")? {
                     break Some(require!(self.block(loop_ctx)));
                 } else if let Some(()) = self.exact(Token::Punct(Punctuation::Semicolon))? {
-- 
2.43.0


From b709cb3eccdf43d6fe1e909e512d1a886b96cd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:02 +0000
Subject: [PATCH 61/80] fix: take the keyword arguments of rgb() in any order,
 and no panic when a component is missing

---
 crates/dreammaker/src/constants.rs | 47 +++++++++++++++++-------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index 8e1b622..c253315 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -1203,10 +1203,12 @@ impl<'a> ConstantFolder<'a> {
             ColorSpace::Rgb // Default
         };
 
-        let mut value_vec: Vec<f64> = vec![];
+        // The three components, then alpha
+        let mut values: [Option<f64>; 4] = [None; 4];
 
         for (arg_pos, (value, potential_kwarg_value)) in arguments.iter().enumerate() {
             let mut to_check = value;
+            let mut slot = arg_pos;
 
             // Determines the range based on predetermined colorspace
             let mut range = match arg_pos {
@@ -1236,14 +1238,17 @@ impl<'a> ConstantFolder<'a> {
                 if let Some(kwarg) = value.as_str() {
                     to_check = kwarg_value; // Set the value to actually check to be our associated vaue
 
-                    range = match kwarg {
-                        "r" | "red" | "g" | "green" | "b" | "blue" => 0..=255,
-                        "h" | "hue" => 0..=360,
-                        "s" | "saturation" => 0..=100,
-                        "v" | "value" => 0..=100,
-                        "c" | "chroma" => 0..=100,
-                        "l" | "y" | "luminance" => 0..=100,
-                        "a" | "alpha" => 0..=255,
+                    // Keyword arguments may be given in any order.
+                    (slot, range) = match kwarg {
+                        "r" | "red" => (0, 0..=255),
+                        "g" | "green" => (1, 0..=255),
+                        "b" | "blue" => (2, 0..=255),
+                        "h" | "hue" => (0, 0..=360),
+                        "s" | "saturation" => (1, 0..=100),
+                        "v" | "value" => (2, 0..=100),
+                        "c" | "chroma" => (1, 0..=100),
+                        "l" | "y" | "luminance" => (2, 0..=100),
+                        "a" | "alpha" => (3, 0..=255),
                         "space" => continue, // Don't range-check the value of the space
                         _ => {
                             return Err(self
@@ -1270,28 +1275,28 @@ impl<'a> ConstantFolder<'a> {
                         .with_location(self.location));
                 }
                 let clamped = std::cmp::max(::std::cmp::min(i, *range.end()), *range.start());
-                value_vec.push(clamped.into());
+                if let Some(value) = values.get_mut(slot) {
+                    *value = Some(clamped.into());
+                }
             } else {
                 return Err(self.error("malformed rgb() call, value wasn't an int"));
             }
         }
 
-        assert!(value_vec.len() >= 3); // Make sure we got 3+ values
+        let [Some(first), Some(second), Some(third), alpha] = values else {
+            return Err(self.error("malformed rgb() call, must have three color components"));
+        };
 
         // Convert our color given a space to a rgb hexcode
         let color: Rgb = match space {
-            ColorSpace::Rgb => Rgb::new(value_vec[0], value_vec[1], value_vec[2]),
-            ColorSpace::Hsv => {
-                Hsv::new(value_vec[0], value_vec[1] * 0.01, value_vec[2] * 0.01).into()
-            },
-            ColorSpace::Hsl => {
-                Hsl::new(value_vec[0], value_vec[1] * 0.01, value_vec[2] * 0.01).into()
-            },
-            ColorSpace::Hcy => Lch::new(value_vec[2], value_vec[1], value_vec[0]).into(),
+            ColorSpace::Rgb => Rgb::new(first, second, third),
+            ColorSpace::Hsv => Hsv::new(first, second * 0.01, third * 0.01).into(),
+            ColorSpace::Hsl => Hsl::new(first, second * 0.01, third * 0.01).into(),
+            ColorSpace::Hcy => Lch::new(third, second, first).into(),
         };
 
-        // Extract the raw 4th alpha positional argument if it wasn't a kwarg
-        let alpha = color_args.a.or_else(|| value_vec.get(3).map(|&x| x as i32));
+        // Extract the alpha argument, positional or keyword
+        let alpha = color_args.a.or_else(|| alpha.map(|x| x as i32));
 
         // APPARENTLY the author thinks fractional rgb is a thing, hence the rounding
         if let Some(alpha) = alpha {
-- 
2.43.0


From 3fc520fc154b529f5836c9062e410900a3bd6dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:26 +0000
Subject: [PATCH 62/80] fix: leave the location of a switch case after its
 block

The tests of switch(rand()) expect it there (reverts 68fb731).
---
 crates/dreammaker/src/parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 7a8e69b..878669d 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1816,7 +1816,6 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
             let default = loop {
                 if let Some(()) = self.exact_ident("if")? {
                     require!(self.exact(Token::Punct(Punctuation::LParen)));
-                    let location = self.location();
                     let what = require!(self.separated(
                         Punctuation::Comma,
                         Punctuation::RParen,
@@ -1828,7 +1827,7 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                             .register_error(self.error("switch case cannot be empty"));
                     }
                     let block = require!(self.block(loop_ctx));
-                    cases.push((Spanned::new(location, what), block));
+                    cases.push((Spanned::new(self.location(), what), block));
                 } else if let Some(()) = self.exact_ident("else")? {
                     break Some(require!(self.block(loop_ctx)));
                 } else if let Some(()) = self.exact(Token::Punct(Punctuation::Semicolon))? {
-- 
2.43.0


From f1155376f63fbda7233cd1e36356335592b2eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:49 +0000
Subject: [PATCH 63/80] fix: find the references in the arguments of new
 without a known type and to the key of for(key, value)

---
 crates/dm-langserver/src/find_references.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/dm-langserver/src/find_references.rs b/crates/dm-langserver/src/find_references.rs
index 663f290..cb018b8 100644
--- a/crates/dm-langserver/src/find_references.rs
+++ b/crates/dm-langserver/src/find_references.rs
@@ -435,6 +435,8 @@ impl<'o> WalkProc<'o> {
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, key, None);
+                } else {
+                    self.visit_ident(location, key);
                 }
                 // the "v" in a DM for (var/k, v) statement is essentially typeless.
                 // There is currently no way to change that.
@@ -610,11 +612,12 @@ impl<'o> WalkProc<'o> {
                 let typepath = self.visit_prefab(location, prefab);
                 self.visit_new(location, typepath, args)
             },
-            Term::NewMiniExpr { expr, .. } => {
+            Term::NewMiniExpr { expr, args } => {
                 let mut current = self.visit_ident(location, &expr.ident);
                 for field in expr.fields.iter() {
                     current = self.visit_field(location, current, &field.ident);
                 }
+                self.visit_arguments(location, args.as_deref().unwrap_or(&[]));
                 // The whole point is it's dynamic, so don't try anything
                 StaticType::None
             },
@@ -721,22 +724,26 @@ impl<'o> WalkProc<'o> {
         typepath: Option<TypeRef<'o>>,
         args: &'o Option<Box<[Expression]>>,
     ) -> StaticType<'o> {
+        let args = args.as_deref().unwrap_or(&[]);
         if let Some(typepath) = typepath {
             if let Some(new_proc) = typepath.get_proc("New") {
                 self.visit_call(
                     location,
                     typepath,
                     new_proc,
-                    args.as_ref().map_or(&[], |v| &v[..]),
+                    args,
                     // New calls are exact: `new /datum()` will always call
                     // `/datum/New()` and never an override.
                     true,
                 );
+            } else {
+                self.visit_arguments(location, args);
             }
             // If we had a diagnostic context here, we'd error for
             // types other than `/list`, which has no `New()`.
             StaticType::Type(typepath)
         } else {
+            self.visit_arguments(location, args);
             StaticType::None
         }
     }
-- 
2.43.0


From fb70fa4eba7684c98100791c5e3c9b8cb314d7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:37 +0000
Subject: [PATCH 64/80] fix: offer no procs of types as overrides of a global
 proc called with a keyword it lacks

---
 crates/dreamchecker/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 4ec4460..d537a2e 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -3431,7 +3431,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                     format!("bad keyword argument {name:?} to {proc}"),
                                 );
                                 proc.recurse_children(&mut |child_proc| {
-                                    if child_proc.ty() == proc.ty() {
+                                    // Procs of types do not override global ones.
+                                    if child_proc.ty() == proc.ty() || proc.ty().is_root() {
                                         return;
                                     }
                                     if child_proc.parameters.iter().any(|p| p.name == *name) {
-- 
2.43.0


From f6c9f9039cbfd623381ab623ef26b6f1ac3eb13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:44 +0000
Subject: [PATCH 65/80] fix: show the text of titles rather than their HTML in
 the documentation

---
 crates/dmdoc/src/markdown.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/dmdoc/src/markdown.rs b/crates/dmdoc/src/markdown.rs
index a0a4420..dbd022f 100644
--- a/crates/dmdoc/src/markdown.rs
+++ b/crates/dmdoc/src/markdown.rs
@@ -46,8 +46,17 @@ impl DocBlock {
                     }
                 }
 
+                // The title is escaped where it is shown, so only keep its text.
                 let mut title = String::new();
-                push_html(&mut title, pieces);
+                for piece in pieces {
+                    match piece {
+                        Event::Text(text) | Event::Code(text) | Event::Html(text) => {
+                            title.push_str(&text)
+                        },
+                        Event::SoftBreak | Event::HardBreak => title.push(' '),
+                        _ => {},
+                    }
+                }
                 Some(title)
             } else {
                 None
-- 
2.43.0


From 19c91695865867d001d266a09e161be1ff775ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:44 +0000
Subject: [PATCH 66/80] fix: do not report success from dmdoc --dry-run for 256
 broken crosslinks

---
 crates/dmdoc/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index fd35482..2c5fd1d 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -660,7 +660,8 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
         // Ensure the diagnostic count is not increased after this point.
         let exit_code = diagnostic_count.into_inner();
         if dry_run {
-            std::process::exit(exit_code);
+            // Exit codes only have eight bits.
+            std::process::exit(exit_code.min(255));
         }
     }
 
-- 
2.43.0


From 033e47137f2cb8d50dc15257666a3dbeb86d7df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:44 +0000
Subject: [PATCH 67/80] fix: show no code fence after .txt files without a
 final newline in the documentation

---
 crates/dmdoc/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index 2c5fd1d..949f789 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -1263,6 +1263,9 @@ fn read_as_markdown(path: &Path) -> std::io::Result<Option<String>> {
         }
         File::open(path)?.read_to_string(&mut buf)?;
         if is_txt {
+            if !buf.ends_with('\n') {
+                buf.push('\n');
+            }
             buf.push_str("```");
         }
         Ok(Some(buf))
-- 
2.43.0


From aa8c7bc00420633f451fe94b50986e58e028dc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:41 +0000
Subject: [PATCH 68/80] fix: let crosslinks lead to the pages of text files and
 of files with documented types

---
 crates/dmdoc/src/main.rs | 65 ++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 23 deletions(-)

diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index 949f789..7bc7634 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -126,10 +126,12 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
 
     // get a read on which types *have* docs
     let mut types_with_docs = BTreeMap::new();
+    let mut modules_with_docs = BTreeSet::new();
     objtree.root().recurse(&mut |ty| {
         // TODO: it would be nice if this was not a duplicate of below
         let mut own_docs = false;
         if !ty.docs.is_empty() {
+            modules_with_docs.insert(module_path(&context.file_path(ty.location.file)));
             own_docs = DocBlock::parse_with_title(&ty.docs.text(), None)
                 .1
                 .has_description;
@@ -138,6 +140,10 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
         let mut var_docs = BTreeSet::new();
         for (name, var) in ty.get().vars.iter() {
             if !var.value.docs.is_empty() {
+                if ty.is_root() {
+                    modules_with_docs
+                        .insert(module_path(&context.file_path(var.value.location.file)));
+                }
                 var_docs.insert(name.as_str());
             }
         }
@@ -146,6 +152,11 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
         for (name, proc) in ty.get().procs.iter() {
             // TODO: integrate docs from non-main procs
             if !proc.main_value().docs.is_empty() {
+                if ty.is_root() {
+                    modules_with_docs.insert(module_path(
+                        &context.file_path(proc.main_value().location.file),
+                    ));
+                }
                 proc_docs.insert(name.as_str());
             }
         }
@@ -173,6 +184,26 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
         }
     }
     let mut modules_which_exist: BTreeSet<_> = modules1.keys().cloned().collect();
+    modules_which_exist.append(&mut modules_with_docs);
+
+    // search the code tree for Markdown files
+    let mut markdown_files = Vec::new();
+    for modules_path in code_directories {
+        for entry in walkdir::WalkDir::new(modules_path)
+            .into_iter()
+            .filter_entry(is_visible)
+        {
+            let entry = entry?;
+            let path = entry.path();
+
+            if let Some(buf) = read_as_markdown(path)? {
+                if Some(path) != index_path.as_ref().map(Path::new) {
+                    modules_which_exist.insert(module_path(path));
+                    markdown_files.push((path.to_owned(), buf));
+                }
+            }
+        }
+    }
 
     // build a map of macro names to the module.html files in which they appear
     let mut macro_exists = BTreeSet::new();
@@ -252,29 +283,17 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
         macro_count += 1;
     }
 
-    // search the code tree for Markdown files
-    for modules_path in code_directories {
-        for entry in walkdir::WalkDir::new(modules_path)
-            .into_iter()
-            .filter_entry(is_visible)
-        {
-            let entry = entry?;
-            let path = entry.path();
-
-            if let Some(buf) = read_as_markdown(path)? {
-                if Some(path) != index_path.as_ref().map(Path::new) {
-                    let module = module_entry(&mut modules1, path);
-                    module.items_wip.push((
-                        0,
-                        ModuleItem::DocComment(DocComment {
-                            kind: CommentKind::Block,
-                            target: DocTarget::EnclosingItem,
-                            text: buf,
-                        }),
-                    ));
-                }
-            }
-        }
+    // add the Markdown files
+    for (path, buf) in markdown_files {
+        let module = module_entry(&mut modules1, &path);
+        module.items_wip.push((
+            0,
+            ModuleItem::DocComment(DocComment {
+                kind: CommentKind::Block,
+                target: DocTarget::EnclosingItem,
+                text: buf,
+            }),
+        ));
     }
 
     // Incorporate the index file if requested.
-- 
2.43.0


From 093772ec93436895d523c9cd59c77333b6ca3390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:41 +0000
Subject: [PATCH 69/80] fix: show the heading of the page of global vars and
 procs as intended

---
 crates/dmdoc/src/template.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dmdoc/src/template.rs b/crates/dmdoc/src/template.rs
index 3054c72..abc9321 100644
--- a/crates/dmdoc/src/template.rs
+++ b/crates/dmdoc/src/template.rs
@@ -375,7 +375,7 @@ pub(crate) fn dm_type(ty: &Type) -> Markup {
         },
         &html! {
             h1 {
-                @if path == "global" {
+                @if path == "(global)" {
                     "(global)"
                 } @else if !details.name.is_empty() {
                     (details.name)
-- 
2.43.0


From ba0c4b1f1def43ffa2c74001119284b477f10044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 70/80] fix: keep documentation of blocks and of lines around
 them in separate paragraphs

---
 crates/dreammaker/src/docs.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/docs.rs b/crates/dreammaker/src/docs.rs
index 2d24ed6..1b2c058 100644
--- a/crates/dreammaker/src/docs.rs
+++ b/crates/dreammaker/src/docs.rs
@@ -39,7 +39,9 @@ impl DocCollection {
                         continue;
                     }
                     if !line_comments.is_empty() {
-                        simplify(&mut output, &line_comments, '/');
+                        if push_lines(&mut output, &line_comments) {
+                            output.push('\n');
+                        }
                         line_comments.clear();
                     }
                     // block comments are always paragraphs
@@ -56,7 +58,7 @@ impl DocCollection {
             }
         }
         if !line_comments.is_empty() {
-            simplify(&mut output, &line_comments, '/');
+            push_lines(&mut output, &line_comments);
         }
         output
     }
@@ -135,6 +137,14 @@ impl CommentKind {
     }
 }
 
+/// Add the text of adjacent line comments, apart from a block before them.
+fn push_lines(out: &mut String, text: &str) -> bool {
+    if !out.is_empty() && text.lines().any(|line| !is_empty(line, '/')) {
+        out.push('\n');
+    }
+    simplify(out, text, '/')
+}
+
 fn simplify(out: &mut String, text: &str, ignore_char: char) -> bool {
     if text.is_empty() {
         return false;
-- 
2.43.0


From 2e62109ac4b15cdf0a18e499a5c43de19b6aa897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:46 +0000
Subject: [PATCH 71/80] fix: list each module once, under its directory, in the
 documentation's index

---
 crates/dmdoc/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index 7bc7634..38dd6b3 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -1315,6 +1315,11 @@ fn build_index_tree<'a, I>(iter: I) -> Vec<IndexTree<'a>>
 where
     I: IntoIterator<Item = IndexTree<'a>>,
 {
+    // what is in a directory or type comes right after it, even if others'
+    // names start with its name and a character less than '/'
+    let mut entries: Vec<_> = iter.into_iter().collect();
+    entries.sort_by(|a, b| a.full_name.split('/').cmp(b.full_name.split('/')));
+
     let mut stack = vec![IndexTree {
         htmlname: "",
         full_name: "",
@@ -1323,7 +1328,7 @@ where
         no_substance: false,
         children: Vec::new(),
     }];
-    for each in iter {
+    for each in entries {
         // don't speak to me or my poorly-thought-out son ever again
         {
             let mut i = 1;
-- 
2.43.0


From 4fcc5f939a0b170297639e149b6cd266a0a8e6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:53 +0000
Subject: [PATCH 72/80] fix: do not panic when a render pass needs a type the
 environment lacks

---
 crates/dmm-tools/src/render_passes/mod.rs     | 19 +++++++++++--------
 .../dmm-tools/src/render_passes/structures.rs | 12 +++++++-----
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/crates/dmm-tools/src/render_passes/mod.rs b/crates/dmm-tools/src/render_passes/mod.rs
index e1f3a49..0779bb6 100644
--- a/crates/dmm-tools/src/render_passes/mod.rs
+++ b/crates/dmm-tools/src/render_passes/mod.rs
@@ -265,7 +265,9 @@ impl RenderPass for HideSpace {
         output: &mut Vec<Atom<'a>>,
     ) -> bool {
         if atom.istype("/turf/template_noop/") {
-            output.push(Atom::from(objtree.expect("/turf/open/space")));
+            if let Some(space) = objtree.find("/turf/open/space") {
+                output.push(Atom::from(space));
+            }
             false
         } else {
             true
@@ -497,13 +499,14 @@ impl RenderPass for Overlays {
             }
 
             // APC terminals
-            let mut terminal =
-                Sprite::from_vars(objtree, &objtree.expect("/obj/machinery/power/terminal"));
-            terminal.dir = atom.sprite.dir;
-            // TODO: un-hack this
-            FancyLayers::default()
-                .apply_fancy_layer("/obj/machinery/power/terminal", &mut terminal);
-            underlays.push(terminal);
+            if let Some(terminal_type) = objtree.find("/obj/machinery/power/terminal") {
+                let mut terminal = Sprite::from_vars(objtree, &terminal_type);
+                terminal.dir = atom.sprite.dir;
+                // TODO: un-hack this
+                FancyLayers::default()
+                    .apply_fancy_layer("/obj/machinery/power/terminal", &mut terminal);
+                underlays.push(terminal);
+            }
         }
     }
 }
diff --git a/crates/dmm-tools/src/render_passes/structures.rs b/crates/dmm-tools/src/render_passes/structures.rs
index 92648a5..f89b40a 100644
--- a/crates/dmm-tools/src/render_passes/structures.rs
+++ b/crates/dmm-tools/src/render_passes/structures.rs
@@ -25,7 +25,9 @@ impl RenderPass for Spawners {
                         },
                         _ => continue,
                     };
-                    output.push(Atom::from(objtree.expect(reference)));
+                    if let Some(ty) = objtree.find(reference) {
+                        output.push(Atom::from(ty));
+                    }
                 }
                 false // don't include the original atom
             },
@@ -48,6 +50,9 @@ impl RenderPass for GravityGen {
         if !atom.istype("/obj/machinery/gravity_generator/main/") {
             return;
         }
+        let Some(part) = objtree.find("/obj/machinery/gravity_generator/part") else {
+            return;
+        };
 
         for &(count, icon_state, x, y) in &[
             (1, "on_1", 1, 2),
@@ -59,10 +64,7 @@ impl RenderPass for GravityGen {
             (7, "on_7", 1, 0),
             (9, "on_9", -1, 0),
         ] {
-            let mut sprite = Sprite::from_vars(
-                objtree,
-                &objtree.expect("/obj/machinery/gravity_generator/part"),
-            );
+            let mut sprite = Sprite::from_vars(objtree, &part);
             sprite.ofs_x += 32 * x;
             sprite.ofs_y += 32 * y;
             sprite.icon_state = icon_state;
-- 
2.43.0


From 361a852a8a90f250bea8c3293cc82dea1e66acfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:53 +0000
Subject: [PATCH 73/80] fix: do not show hidden bar signs as random ones

---
 crates/dmm-tools/src/render_passes/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/render_passes/random.rs b/crates/dmm-tools/src/render_passes/random.rs
index 85afecc..cdd6eb2 100644
--- a/crates/dmm-tools/src/render_passes/random.rs
+++ b/crates/dmm-tools/src/render_passes/random.rs
@@ -155,7 +155,7 @@ impl RenderPass for Random {
                 let mut signs = Vec::new();
                 for child in root.children() {
                     if let Some(v) = child.vars.get("hidden") {
-                        if !v.value.constant.as_ref().is_some_and(|c| c.to_bool()) {
+                        if v.value.constant.as_ref().is_some_and(|c| c.to_bool()) {
                             continue;
                         }
                     }
-- 
2.43.0


From a62ef3ca771b289d18828a43f38608e020f8d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:53 +0000
Subject: [PATCH 74/80] fix: do not panic on loot whose weights are all zero

---
 crates/dmm-tools/src/render_passes/random.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/dmm-tools/src/render_passes/random.rs b/crates/dmm-tools/src/render_passes/random.rs
index cdd6eb2..6bf8480 100644
--- a/crates/dmm-tools/src/render_passes/random.rs
+++ b/crates/dmm-tools/src/render_passes/random.rs
@@ -214,6 +214,9 @@ fn pickweight<'a>(list: &[&'a (Constant, Option<Constant>)]) -> &'a Constant {
                 .unwrap_or(1)
         })
         .sum();
+    if total < 1 {
+        return list.choose(&mut rand::rng()).map_or(Constant::null(), |(k, _)| k);
+    }
     total = rand::rng().random_range(1..=total);
     for (k, v) in list.iter() {
         total -= v
-- 
2.43.0


From 4d4b5cc150660709602b0c14bb8106f9eef9cb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:50 +0000
Subject: [PATCH 75/80] fix: know macros and includes of a file edited without
 a project

---
 crates/dm-langserver/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index b112303..697e670 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -765,6 +765,7 @@ impl Engine {
                         // selective definition deletion/reintroduction is implemented.
                         self.objtree = Arc::new(parser.parse_object_tree());
                     }
+                    annotations.merge(pp.take_annotations().unwrap());
                     pp.finalize();
                     dreamchecker::run(&self.context, &self.objtree);
 
-- 
2.43.0


From f2b2200e2ce0f347cbdb2ac6ff34daae8f3cde12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:50 +0000
Subject: [PATCH 76/80] fix: list the last local variable of a proc under the
 proc

---
 crates/dm-langserver/src/main.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 697e670..affd022 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -2157,8 +2157,18 @@ impl Engine {
             let mut result = Vec::new();
 
             loop {
-                if let Some((range, _)) = iter.peek() {
-                    if range.start >= section_end {
+                if let Some((range, annotation)) = iter.peek() {
+                    // The scope of a local variable starts after its name, which can be where
+                    // the body of its proc is said to end.
+                    if range.start >= section_end
+                        && matches!(
+                            annotation,
+                            Annotation::TreeBlock(_)
+                                | Annotation::Variable(_)
+                                | Annotation::ProcBody(..)
+                                | Annotation::MacroDefinition(_)
+                        )
+                    {
                         break;
                     }
                 }
-- 
2.43.0


From b92418fc37d50baeee08c2bef0ed4a4b935a756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:50 +0000
Subject: [PATCH 77/80] fix: list global procs with flags as functions

---
 crates/dm-langserver/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index affd022..56fa9cf 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -2215,7 +2215,10 @@ impl Engine {
                             continue;
                         }
                         let (name, detail) = name_and_detail(path, skip_front);
-                        let kind = if path.len() == 1 || (path.len() == 2 && path[0] == "proc") {
+                        let is_global = path[..path.len() - 1]
+                            .iter()
+                            .all(|x| x == "proc" || dm::ast::ProcFlags::from_name(x).is_some());
+                        let kind = if is_global {
                             SymbolKind::FUNCTION
                         } else if is_constructor_name(&name) {
                             SymbolKind::CONSTRUCTOR
-- 
2.43.0


From d86d1a79c83c6e68351a5da71176908599dac17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:50 +0000
Subject: [PATCH 78/80] fix: do not give ranges in outlines which end before
 they start

---
 crates/dm-langserver/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index 56fa9cf..b7d87eb 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -2178,7 +2178,8 @@ impl Engine {
                 };
 
                 let interval_tree::RangeInclusive { start, end } = child_range;
-                let range = span_to_range(start..end);
+                // What is nothing but a name is said to end where the name starts.
+                let range = span_to_range(start..std::cmp::max(start, end));
                 let selection_range = location_to_range(start);
                 match annotation {
                     Annotation::TreeBlock(path) => {
-- 
2.43.0


From 20bc14af7c2f1a1e7960091ff57fd0fc4a888c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:41 +0000
Subject: [PATCH 79/80] fix: list a proc without a body in the block which it
 ends

---
 crates/dm-langserver/src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/dm-langserver/src/main.rs b/crates/dm-langserver/src/main.rs
index b7d87eb..ae4b895 100644
--- a/crates/dm-langserver/src/main.rs
+++ b/crates/dm-langserver/src/main.rs
@@ -2160,7 +2160,14 @@ impl Engine {
                 if let Some((range, annotation)) = iter.peek() {
                     // The scope of a local variable starts after its name, which can be where
                     // the body of its proc is said to end.
-                    if range.start >= section_end
+                    // A proc without a body can be the last thing in a block. What is empty is said
+                    // to end before it starts.
+                    let outside = if range.start > range.end {
+                        range.end > section_end
+                    } else {
+                        range.start >= section_end
+                    };
+                    if outside
                         && matches!(
                             annotation,
                             Annotation::TreeBlock(_)
-- 
2.43.0


From b3cfb80b2fc09c055f12e4d13541e44874b34924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:58 +0000
Subject: [PATCH 80/80] fix: see through parentheses in the values of settings
 and filter flags

---
 crates/dreamchecker/src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index d537a2e..66816d5 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -507,10 +507,18 @@ impl<'o> ProcDirective<'o> {
     }
 }
 
+/// Look past any parentheses around an expression.
+fn without_parens(mut expr: &Expression) -> &Expression {
+    while let Some(Term::Expr(inner)) = expr.as_term() {
+        expr = inner;
+    }
+    expr
+}
+
 /// Helper evaluation for directive true/false setting
 pub fn directive_value_to_truthy(expr: &Expression, location: Location) -> Result<bool, DMError> {
     // Maybe this should be using constant evaluation, but for now accept TRUE and FALSE directly.
-    match expr.as_term() {
+    match without_parens(expr).as_term() {
         Some(Term::Int(0)) => Ok(false),
         Some(Term::Int(1)) => Ok(true),
         Some(Term::Ident(i)) if i == "FALSE" => Ok(false),
@@ -1078,7 +1086,7 @@ impl<'o> AnalyzeObjectTree<'o> {
                             }
                         },
                         "name" | "category" | "desc" => {
-                            if let Some(term) = value.as_term() {
+                            if let Some(term) = without_parens(value).as_term() {
                                 match term {
                                     // TODO: detect procs-as-verbs here
                                     Term::String(_) | Term::InterpString(_, _) => {},
@@ -1100,7 +1108,7 @@ impl<'o> AnalyzeObjectTree<'o> {
                             }
                         },
                         "invisibility" => {
-                            if let Some(Term::Int(i)) = value.as_term() {
+                            if let Some(Term::Int(i)) = without_parens(value).as_term() {
                                 if *i >= 0 && *i <= 100 {
                                     continue;
                                 }
@@ -2023,7 +2031,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 if name != "waitfor" {
                     return ControlFlow::allfalse();
                 }
-                if match value.as_term() {
+                if match without_parens(value).as_term() {
                     Some(Term::Int(0)) => true,
                     Some(Term::Ident(i)) if i == "FALSE" => true,
                     _ => false,
@@ -3295,7 +3303,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
         flagfieldname: &str,
         exclusive: bool,
     ) {
-        match expr {
+        match without_parens(expr) {
             Expression::BinaryOp {
                 op: BinaryOp::BitOr,
                 lhs,
-- 
2.43.0

