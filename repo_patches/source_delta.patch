From 49607e1aff83680e946083b53f0c27edbd027b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 1/5] fix: no dangling space for a restrict qualifier
 suppressed by NO_MS_KEYWORDS

---
 src/nodes/enums.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nodes/enums.rs b/src/nodes/enums.rs
index 70abf2f..18deec0 100644
--- a/src/nodes/enums.rs
+++ b/src/nodes/enums.rs
@@ -51,14 +51,16 @@ enum SingleQualifier {
 }
 
 impl SingleQualifier {
+    #[must_use]
+    fn is_suppressed(self, flags: OutputFlags) -> bool {
+        matches!(self, Self::Restrict) && flags.no_ms_keywords()
+    }
+
     fn output_single_qualifier(self, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
         let qualifier = match self {
             Self::Const => "const",
             Self::Volatile => "volatile",
             Self::Restrict => {
-                if flags.no_ms_keywords() {
-                    return Ok(());
-                }
                 if flags.no_leading_underscores() {
                     "restrict"
                 } else {
@@ -122,7 +124,7 @@ impl Qualifiers {
         mask: SingleQualifier,
         needs_space: bool,
     ) -> Result<bool> {
-        if !self.contains(mask.into()) {
+        if !self.contains(mask.into()) || mask.is_suppressed(flags) {
             return Ok(needs_space);
         }
 
-- 
2.43.0


From 7742a519d4f4c13b8eadfa3872a345770b157aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 2/5] fix: NAME_ONLY no longer prints noexcept after the
 declaration's name

---
 src/nodes/derived.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 6b1dcd1..54dd899 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -246,7 +246,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if self.is_noexcept {
+        if (is_function_ptr || !flags.name_only()) && self.is_noexcept {
             write!(ob, " noexcept")?;
         }
 
-- 
2.43.0


From 88077869a2e55a0f7f9b07d9334cb332ca860065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 3/5] fix: NAME_ONLY closes the brackets a function pointer's
 return type opened

---
 src/nodes/derived.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 54dd899..8d1f5e0 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -258,7 +258,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_return_type() && !flags.name_only() {
+        if !flags.no_return_type() && (is_function_ptr || !flags.name_only()) {
             if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {
                 return_type.output_post(cache, ob, flags)?;
             }
-- 
2.43.0


From 2780d69ff94798a32afe0b4d4ad8648a7c36afc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 4/5] fix: reject input nested deeply enough to exhaust the
 stack

---
 src/demangler.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/demangler.rs b/src/demangler.rs
index fc12d3c..8ff1b56 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -238,11 +238,14 @@ enum FunctionIdentifierCodeGroup {
     DoubleUnder,
 }
 
+const MAX_NESTING: usize = 1 << 8;
+
 pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     mangled_name: MangledString<'string>,
     allocator: &'alloc Bump,
     cache: NodeCache<'alloc>,
     backrefs: BackrefContext,
+    depth: usize,
     flags: OutputFlags,
 }
 
@@ -257,6 +260,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             allocator,
             cache: NodeCache::new(allocator),
             backrefs: BackrefContext::default(),
+            depth: 0,
             flags,
         }
     }
@@ -291,7 +295,24 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         }
     }
 
+    // Every cycle in the grammar goes through here, so that nesting is rejected before
+    // it exhausts the stack.
+    fn with_nesting<T>(&mut self, parse: impl FnOnce(&mut Self) -> Result<T>) -> Result<T> {
+        if self.depth >= MAX_NESTING {
+            // a mangled string nested this deeply is probably malformed... bail
+            return Err(Error::MaliciousInput);
+        }
+        self.depth += 1;
+        let result = parse(self);
+        self.depth -= 1;
+        result
+    }
+
     fn do_parse(&mut self) -> Result<NodeHandle<ISymbolNode>> {
+        self.with_nesting(Self::do_parse_unchecked)
+    }
+
+    fn do_parse_unchecked(&mut self) -> Result<NodeHandle<ISymbolNode>> {
         // Typeinfo names are strings stored in RTTI data. They're not symbol names.
         // It's still useful to demangle them. They're the only demangled entity
         // that doesn't start with a "?" but a ".".
@@ -544,6 +565,13 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // <variable-type> ::= <type> <cvr-qualifiers>
     //                 ::= <type> <pointee-cvr-qualifiers> # pointers, references
     fn demangle_type(&mut self, qmm: QualifierMangleMode) -> Result<NodeHandle<ITypeNode>> {
+        self.with_nesting(|this| this.demangle_type_unchecked(qmm))
+    }
+
+    fn demangle_type_unchecked(
+        &mut self,
+        qmm: QualifierMangleMode,
+    ) -> Result<NodeHandle<ITypeNode>> {
         let quals = match qmm {
             QualifierMangleMode::Mangle => self.demangle_qualifiers()?.0,
             QualifierMangleMode::Result => {
@@ -1252,6 +1280,13 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     fn demangle_template_instantiation_name(
         &mut self,
         nbb: NameBackrefBehavior,
+    ) -> Result<NodeHandle<IIdentifierNode>> {
+        self.with_nesting(|this| this.demangle_template_instantiation_name_unchecked(nbb))
+    }
+
+    fn demangle_template_instantiation_name_unchecked(
+        &mut self,
+        nbb: NameBackrefBehavior,
     ) -> Result<NodeHandle<IIdentifierNode>> {
         self.mangled_name
             .try_consume_str("?$")
-- 
2.43.0


From a4afd664fc91b76cebe37f46af3d8c07f489d427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 5/5] fix: which names get memorized no longer depends on the
 output flags

---
 src/demangler.rs     | 64 +++++++++++++++++++++++++++++++-------------
 src/nodes/derived.rs | 17 +++++++++++-
 2 files changed, 62 insertions(+), 19 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 8ff1b56..a2cbbba 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -96,7 +96,6 @@ use bumpalo::Bump;
 use smallvec::SmallVec;
 use std::{
     io,
-    io::Write as _,
     mem,
 };
 
@@ -1120,15 +1119,27 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // First 10 strings can be referenced by special BackReferences ?0, ?1, ..., ?9.
     // Memorize it.
     fn memorize_string(&mut self, s: &'alloc str) -> Result<()> {
+        self.memorize_rendered_string(s, None)
+    }
+
+    // What has already been memorized must not depend on how names get printed, so
+    // compare the names as printed by default.
+    fn memorize_rendered_string(
+        &mut self,
+        s: &'alloc str,
+        default_name: Option<&'alloc str>,
+    ) -> Result<()> {
+        let key = default_name.unwrap_or(s);
         if !self.backrefs.names.is_full()
             && self
                 .backrefs
                 .names
                 .iter()
-                .all(|x| x.resolve(&self.cache).name != s)
+                .all(|x| x.resolve(&self.cache).default_name() != key)
         {
             let name = self.cache.intern(NamedIdentifierNode {
                 name: s,
+                default_name,
                 ..Default::default()
             })?;
             // SAFETY: we just verified the array is not full
@@ -1140,14 +1151,34 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     fn memorize_identifier(&mut self, identifier: NodeHandle<IIdentifierNode>) -> Result<()> {
         // Render this class template name into a string buffer so that we can
         // memorize it for the purpose of back-referencing.
-        let mut ob = {
-            let ob = alloc::new_vec(self.allocator);
-            BufWriter::new(ob)
+        let (name, default_name) = self.render(|ob, flags| {
+            identifier
+                .resolve(&self.cache)
+                .output(&self.cache, ob, flags)
+        })?;
+        self.memorize_rendered_string(name, default_name)
+    }
+
+    // Renders into a string buffer, both with the flags that were asked for and, where
+    // that could make a difference, with the default ones.
+    fn render(
+        &self,
+        output: impl Fn(&mut dyn Writer, OutputFlags) -> Result<()>,
+    ) -> Result<(&'alloc str, Option<&'alloc str>)> {
+        let render = |flags| -> Result<&'alloc str> {
+            let mut ob = {
+                let ob = alloc::new_vec(self.allocator);
+                BufWriter::new(ob)
+            };
+            output(&mut ob, flags)?;
+            Ok(ob.try_into()?)
         };
-        identifier
-            .resolve(&self.cache)
-            .output(&self.cache, &mut ob, self.flags)?;
-        self.memorize_string(ob.try_into()?)
+        let default_name = if self.flags.is_empty() {
+            None
+        } else {
+            Some(render(OutputFlags::default())?)
+        };
+        Ok((render(self.flags)?, default_name))
     }
 
     // Parses a type name in the form of A@B@C@@ which represents C::B::A.
@@ -1816,15 +1847,12 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         let scope = self.do_parse()?.resolve(&self.cache);
 
         // Render the parent symbol's name into a buffer.
-        let mut ob = {
-            let ob = alloc::new_vec(self.allocator);
-            BufWriter::new(ob)
-        };
-        write!(ob, "`")?;
-        scope.output(&self.cache, &mut ob, self.flags)?;
-        write!(ob, "'::`{number}'")?;
-
-        identifier.name = ob.try_into()?;
+        (identifier.name, identifier.default_name) = self.render(|ob, flags| {
+            write!(ob, "`")?;
+            scope.output(&self.cache, ob, flags)?;
+            write!(ob, "'::`{number}'")?;
+            Ok(())
+        })?;
         self.cache.intern(identifier)
     }
 
diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 8d1f5e0..732b4c1 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -739,11 +739,26 @@ impl WriteableNode for DynamicStructorIdentifierNode {
 pub(crate) struct NamedIdentifierNode<'alloc> {
     pub(crate) template_params: TemplateParameters,
     pub(crate) name: &'alloc str,
+
+    // The name as printed by default, if it was rendered with other flags.
+    pub(crate) default_name: Option<&'alloc str>,
+}
+
+impl<'alloc> NamedIdentifierNode<'alloc> {
+    #[must_use]
+    pub(crate) fn default_name(&self) -> &'alloc str {
+        self.default_name.unwrap_or(self.name)
+    }
 }
 
 impl WriteableNode for NamedIdentifierNode<'_> {
     fn output(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
-        write!(ob, "{}", self.name)?;
+        let name = if flags.is_empty() {
+            self.default_name()
+        } else {
+            self.name
+        };
+        write!(ob, "{name}")?;
         self.template_params.output(cache, ob, flags)
     }
 }
-- 
2.43.0

