From 69ca82413302d1945677bb9fa20749f320059c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:25 +0000
Subject: [PATCH 01/38] fix: slice token text by byte offsets instead of
 character offsets

---
 src/source_range.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/source_range.rs b/src/source_range.rs
index 8065669..d378381 100644
--- a/src/source_range.rs
+++ b/src/source_range.rs
@@ -1,5 +1,3 @@
-use substring::Substring;
-
 use super::parser::ParserRef;
 
 #[derive(Copy, Clone, Debug, PartialEq)]
@@ -18,11 +16,11 @@ impl SourceRange {
   }
 
   pub fn to_string<'a>(&self, parser: &ParserRef) -> String {
-    parser
-      .borrow()
-      .source
-      .substring(self.start, self.end)
-      .to_string()
+    // Offsets are byte offsets (not character offsets)
+    let source = &parser.borrow().source;
+    let end = std::cmp::min(self.end, source.len());
+
+    source.get(self.start..end).unwrap_or("").to_string()
   }
 
   pub fn clone_with_len(&self, len: usize) -> Self {
-- 
2.43.0


From 1a70303ecc36e0579d47d841794a8881f8dbf6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 02/38] fix: do not panic when a Sequence scans over multi-byte
 characters

---
 src/parser_context.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser_context.rs b/src/parser_context.rs
index 9351bfd..855b7cb 100644
--- a/src/parser_context.rs
+++ b/src/parser_context.rs
@@ -113,9 +113,11 @@ impl ParserContext {
       return None;
     }
 
-    let chunk = &self.parser.borrow().source[offset..self.offset.end];
+    // Compare bytes, as `offset` may not be on a character boundary
+    let parser = self.parser.borrow();
+    let chunk = &parser.source.as_bytes()[offset..self.offset.end];
 
-    if chunk.starts_with(pattern) {
+    if chunk.starts_with(pattern.as_bytes()) {
       Some(SourceRange::new(offset, offset + pattern.len()))
     } else {
       None
-- 
2.43.0


From ddc162c11f26d38903b7efee891cf4808b437be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 03/38] fix: do not panic when the debug preview ends inside a
 multi-byte character

---
 src/parser_context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser_context.rs b/src/parser_context.rs
index 855b7cb..ca179c8 100644
--- a/src/parser_context.rs
+++ b/src/parser_context.rs
@@ -150,6 +150,10 @@ impl ParserContext {
       end_offset = self.offset.end;
     }
 
+    while !parser.source.is_char_boundary(end_offset) {
+      end_offset -= 1;
+    }
+
     parser.source[self.offset.start..end_offset].to_string()
   }
 
-- 
2.43.0


From d3bb65c3298f7bfd9e4c5e5ab7b1ed3710e06a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 04/38] fix: end a Loop when an iteration consumes nothing
 instead of spinning forever

---
 src/matchers/program.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index b310a30..4ff077e 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -174,11 +174,13 @@ impl ProgramPattern {
       Some(range) => range.clone(),
       None => (0..1),
     };
+    let min_iterations = iterate_range.start;
     let mut iteration_result: Option<MatcherSuccess>;
     let mut loop_count = 0;
 
     for _ in iterate_range {
       iteration_result = None;
+      let iteration_start = sub_context.borrow().offset.start;
 
       if sub_context.borrow().debug_mode_level() > 1 {
         println!("{{{}/Iterating}}", program_token.borrow().get_name());
@@ -549,6 +551,14 @@ impl ProgramPattern {
         None => {}
       }
 
+      // An iteration that consumed nothing would simply repeat forever,
+      // so stop here. Any remaining required iterations are satisfied,
+      // because they would all succeed without consuming anything.
+      if is_loop && sub_context.borrow().offset.start <= iteration_start {
+        loop_count = std::cmp::max(loop_count, min_iterations);
+        break;
+      }
+
       loop_count += 1;
     }
 
-- 
2.43.0


From 567ccb1f4bbd039aca386c1ccb462500052ef661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:55 +0000
Subject: [PATCH 05/38] fix: honour the minimum and maximum iteration count of
 a Loop

---
 src/matchers/program.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 4ff077e..1299e5d 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -19,8 +19,9 @@ where
     range.start = *start;
   }
 
-  if let Bound::Excluded(end) = r.end_bound() {
-    range.end = *end;
+  match r.end_bound() {
+    Bound::Included(end) | Bound::Excluded(end) => range.end = *end,
+    Bound::Unbounded => {}
   }
 
   range
@@ -178,7 +179,8 @@ impl ProgramPattern {
     let mut iteration_result: Option<MatcherSuccess>;
     let mut loop_count = 0;
 
-    for _ in iterate_range {
+    // `iterate_range` is the minimum and maximum number of iterations
+    for _ in 0..iterate_range.end {
       iteration_result = None;
       let iteration_start = sub_context.borrow().offset.start;
 
@@ -338,7 +340,7 @@ impl ProgramPattern {
                       matched_range,
                       &self.iterate_range,
                       loop_count,
-                      false,
+                      true,
                     );
                   }
 
-- 
2.43.0


From a499e3ee75b59c6a0bea49d23e562babc8d07a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 06/38] fix: give an error token that comes first in a Program
 a valid range

---
 src/matchers/program.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 1299e5d..d135c47 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -680,7 +680,8 @@ fn add_token_to_children(
       let mut token = token.borrow_mut();
       let source_range = token.get_matched_range();
 
-      if source_range.start == source_range.end {
+      // Nothing has been matched yet if matched_range.start == usize::MAX
+      if source_range.start == source_range.end && matched_range.start != usize::MAX {
         let mut new_source_range = source_range.clone();
         new_source_range.start = matched_range.start;
 
-- 
2.43.0


From d3ad76b23f8fba6805d66213d81433183cc391ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 07/38] fix: continue after the whole proxied token, not after
 its last child

---
 src/matchers/program.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index d135c47..6f8fc84 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -848,6 +848,15 @@ fn handle_extract_token(
       update_offsets && !should_discard,
     );
   }
+
+  // The last child may end before the proxied token does
+  // (i.e. when the proxied token ends with discarded content),
+  // so ensure we always continue from the end of the proxied token
+  if update_offsets && !should_discard {
+    context
+      .borrow_mut()
+      .set_start(token.get_matched_range().end);
+  }
 }
 
 fn handle_skip(
-- 
2.43.0


From ef01a1804f9a2b4ce90e7551e12ce9ec232c2a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 08/38] fix: a Discard passes on only the errors it found,
 without a wrapper token

---
 src/matchers/discard.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matchers/discard.rs b/src/matchers/discard.rs
index 4e7322d..af2e65b 100644
--- a/src/matchers/discard.rs
+++ b/src/matchers/discard.rs
@@ -145,7 +145,8 @@ fn skip_token(context: ParserContextRef, start_offset: usize, token: TokenRef) -
   collect_errors(error_token.clone(), token.clone());
 
   if error_token.borrow().get_children().len() > 0 {
-    return MatcherSuccess::Token(error_token);
+    // Only the errors themselves go upstream (not the token holding them)
+    return MatcherSuccess::ProxyChildren(error_token);
   }
 
   let offset: isize = end_offset as isize - start_offset as isize;
-- 
2.43.0


From ac38d2df67598b4fcddf4d65d76eb75adee17b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 09/38] fix: resolve an alias to the identifier it is assigned,
 not to the whole assignment

---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index b9166a4..1750e55 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -316,7 +316,7 @@ fn build_matcher_from_tokens(
       if value_name == "Identifier" {
         // Identifier is assigned to identifier...
         // so this is a reference
-        scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(Ref!(_token.get_value().clone())));
+        scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(Ref!(_value.get_value().clone())));
       } else if value_name == "PatternDefinition" {
         // This is a pattern definition, so turn it into
         // a matcher, and store it as a reference
-- 
2.43.0


From bd4a8eda946a299ccc129c24b50f02a277fa02ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 10/38] fix: report an invalid regex or empty sequence
 delimiter as a compile error

---
 src/script/v1/parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 1750e55..fa4ce2b 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -52,18 +52,21 @@ fn construct_matcher_from_inner_definition(
       value = format!("(?{}){}", flags.borrow().get_captured_value(), value);
     }
 
-    Ok(crate::Matches!(&value))
+    match regex::Regex::new(&value) {
+      Ok(regex) => Ok(crate::matchers::matches::MatchesPattern::new(regex)),
+      Err(error) => Err(format!("Invalid regular expression: {}", error)),
+    }
   } else if matcher_token_name == "SequenceMatcher" {
     let start_pattern = matcher_token.get_children()[0].borrow();
     let end_pattern = matcher_token.get_children()[1].borrow();
     let escape_pattern = matcher_token.get_children()[2].borrow();
 
     if start_pattern.get_value().len() == 0 {
-      panic!("Sequence `start` pattern of \"\" makes no sense");
+      return Err("Sequence `start` pattern of \"\" makes no sense".to_string());
     }
 
     if end_pattern.get_value().len() == 0 {
-      panic!("Sequence `end` pattern of \"\" makes no sense");
+      return Err("Sequence `end` pattern of \"\" makes no sense".to_string());
     }
 
     Ok(crate::Sequence!(
-- 
2.43.0


From ebc0214c27a786dd575dad518d93bd138248b285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 11/38] fix: report a script or import that can not be opened
 as a compile error

---
 src/script/v1/parser.rs | 54 ++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index fa4ce2b..cd3eab2 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -347,8 +347,15 @@ fn build_matcher_from_tokens(
       let import_identifiers = import_identifiers.get_children();
       let path = _token.find_child("Path").unwrap().borrow().get_value().clone();
 
-      let full_path = Path::new(from_file).parent().unwrap().join(path).canonicalize().unwrap();
-      let file_name = full_path.to_str().unwrap();
+      let full_path = match Path::new(from_file).parent() {
+        Some(directory) => directory.join(path),
+        None => Path::new(&path).to_path_buf(),
+      };
+      let file_name = match resolve_script_path(&full_path) {
+        Ok(file_name) => file_name,
+        Err(errors) => return Err(ParseError::new_with_range(&errors[0].message, _token.get_matched_range().clone())),
+      };
+      let file_name = file_name.as_str();
 
       let import_result = match compile_script_from_file_internal(file_name, flags) {
         Ok(result) => result,
@@ -565,26 +572,51 @@ pub fn compile_script_from_str(
   }
 }
 
+fn resolve_script_path(path: &Path) -> Result<String, Vec<ParseError>> {
+  let full_path = match path.canonicalize() {
+    Ok(full_path) => full_path,
+    Err(error) => {
+      return Err(vec![ParseError::new(&format!(
+        "Failed to open script '{}': {}",
+        path.display(),
+        error
+      ))])
+    }
+  };
+
+  match full_path.to_str() {
+    Some(full_path) => Ok(full_path.to_string()),
+    None => Err(vec![ParseError::new(&format!(
+      "Failed to open script '{}': Path is not valid UTF-8",
+      full_path.display()
+    ))]),
+  }
+}
+
 fn compile_script_from_file_internal(
   file_name: &str,
   flags: u32,
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
-  let full_path = Path::new(file_name).canonicalize().unwrap();
-  let full_file_name = full_path.to_str().unwrap();
+  let full_file_name = resolve_script_path(Path::new(file_name))?;
 
-  let parser = Parser::new_from_file(full_file_name).unwrap();
-  compile_script(parser, file_name.to_string(), Some(full_file_name), flags)
+  let parser = match Parser::new_from_file(&full_file_name) {
+    Ok(parser) => parser,
+    Err(error) => {
+      return Err(vec![ParseError::new(&format!(
+        "Failed to read script '{}': {}",
+        full_file_name, error
+      ))])
+    }
+  };
+
+  compile_script(parser, file_name.to_string(), Some(&full_file_name), flags)
 }
 
 pub fn compile_script_from_file(
   file_name: &str,
   flags: u32,
 ) -> Result<MatcherRef, Vec<ParseError>> {
-  let full_path = Path::new(file_name).canonicalize().unwrap();
-  let full_file_name = full_path.to_str().unwrap();
-
-  let parser = Parser::new_from_file(full_file_name).unwrap();
-  match compile_script(parser, file_name.to_string(), Some(full_file_name), flags) {
+  match compile_script_from_file_internal(file_name, flags) {
     Ok(result) => Ok(result.1),
     Err(errors) => Err(errors),
   }
-- 
2.43.0


From 17c0a9e961ed2d33a7b462f3a28afc067ee7982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:25 +0000
Subject: [PATCH 12/38] fix: report a circular import as a compile error
 instead of overflowing the stack

---
 src/script/v1/parser.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index cd3eab2..d94ca6d 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -268,6 +268,7 @@ fn build_matcher_from_tokens(
   parser_context: ParserContextRef,
   name: String,
   from_file: Option<&str>,
+  importing: &[String],
   flags: u32,
 ) -> Result<(MatcherRef, ScopeContextRef), Vec<ParseError>> {
   if root_token.borrow().get_name() != "Script" {
@@ -357,7 +358,11 @@ fn build_matcher_from_tokens(
       };
       let file_name = file_name.as_str();
 
-      let import_result = match compile_script_from_file_internal(file_name, flags) {
+      if importing.iter().any(|importing_file| importing_file == file_name) {
+        return Err(ParseError::new_with_range(&format!("Circular import of '{}'", file_name), _token.get_matched_range().clone()));
+      }
+
+      let import_result = match compile_script_from_file_internal(file_name, importing, flags) {
         Ok(result) => result,
         Err(errors) => {
           let mut _parse_errors = parse_errors.borrow_mut();
@@ -502,6 +507,23 @@ pub fn compile_script(
   from_file: Option<&str>,
   flags: u32,
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
+  compile_script_with_imports(parser, name, from_file, &[], flags)
+}
+
+// `importing` lists the files that are already being compiled,
+// which is used to detect files that (indirectly) import themselves
+fn compile_script_with_imports(
+  parser: ParserRef,
+  name: String,
+  from_file: Option<&str>,
+  importing: &[String],
+  flags: u32,
+) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
+  let mut importing = importing.to_vec();
+  if let Some(file_name) = from_file {
+    importing.push(file_name.to_string());
+  }
+
   let parser_context = ParserContext::new(&parser, &name);
 
   (*parser_context)
@@ -519,6 +541,7 @@ pub fn compile_script(
         parser_context.clone(),
         name,
         from_file,
+        &importing,
         flags,
       ) {
         Ok(result) => {
@@ -595,6 +618,7 @@ fn resolve_script_path(path: &Path) -> Result<String, Vec<ParseError>> {
 
 fn compile_script_from_file_internal(
   file_name: &str,
+  importing: &[String],
   flags: u32,
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
   let full_file_name = resolve_script_path(Path::new(file_name))?;
@@ -609,14 +633,20 @@ fn compile_script_from_file_internal(
     }
   };
 
-  compile_script(parser, file_name.to_string(), Some(&full_file_name), flags)
+  compile_script_with_imports(
+    parser,
+    file_name.to_string(),
+    Some(&full_file_name),
+    importing,
+    flags,
+  )
 }
 
 pub fn compile_script_from_file(
   file_name: &str,
   flags: u32,
 ) -> Result<MatcherRef, Vec<ParseError>> {
-  match compile_script_from_file_internal(file_name, flags) {
+  match compile_script_from_file_internal(file_name, &[], flags) {
     Ok(result) => Ok(result.1),
     Err(errors) => Err(errors),
   }
-- 
2.43.0


From 7cba1bdccd642332bc87004b2c1835a96f35b0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 13/38] fix: fail to compile a script when errors were
 collected from it

---
 src/script/v1/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index d94ca6d..9b120e6 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -448,7 +448,14 @@ fn build_matcher_from_tokens(
   );
 
   match result {
-    Ok(_) => Ok((root_matcher, scope_context)),
+    Ok(_) => {
+      let parse_errors = parse_errors.into_inner();
+      if parse_errors.len() > 0 {
+        return Err(parse_errors);
+      }
+
+      Ok((root_matcher, scope_context))
+    }
     Err(error) => {
       if error.message != "" {
         let range = match &error.range {
-- 
2.43.0


From 0fb0552b8301db3570c1d35a4041e82b6ed71315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 14/38] fix: allow a script header that ends with whitespace
 only

---
 src/script/v1/matchers/adextopa_scope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/script/v1/matchers/adextopa_scope.rs b/src/script/v1/matchers/adextopa_scope.rs
index c8f33d8..316058c 100644
--- a/src/script/v1/matchers/adextopa_scope.rs
+++ b/src/script/v1/matchers/adextopa_scope.rs
@@ -24,6 +24,7 @@ macro_rules! ScriptAdextopaScope {
             ),
           )
         ),
+        $crate::ScriptWSN0!(?),
         $crate::Discard!($crate::Equals!("-->")),
       ),
       |token, context, __| {
-- 
2.43.0


From 3bb2bd5beba6255c49b6b3ef5e4a3519c73db15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 15/38] fix: report an empty regex as a compile error

---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 9b120e6..9147da4 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -44,7 +44,7 @@ fn construct_matcher_from_inner_definition(
   } else if matcher_token_name == "RegexMatcher" {
     let mut value: String = matcher_token.get_value().clone();
 
-    if value == "" {
+    if value == "" || !matcher_token.has_child("Part") {
       return Err("Value can not be empty for a `Matches` pattern definition".to_string());
     }
 
-- 
2.43.0


From 9d9b0c0068ac19de760fca0dfbaeecebe0e4c209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 16/38] fix: executing a matcher does not replace an explicit
 assignment to its name

---
 src/matcher.rs       |  4 +++-
 src/scope.rs         | 19 ++++++++++++++++++-
 src/scope_context.rs | 10 ++++++++++
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/matcher.rs b/src/matcher.rs
index bdef0a4..c610261 100644
--- a/src/matcher.rs
+++ b/src/matcher.rs
@@ -35,9 +35,11 @@ impl std::fmt::Debug for dyn Matcher {
 pub trait Matcher {
   fn before_exec(&self, this_matcher: MatcherRef, _: ParserContextRef, scope: ScopeContextRef) {
     if self.has_custom_name() {
+      // Never replace an explicit assignment to the same name, which might
+      // wrap this matcher (i.e. to repeat it, or to give it attributes)
       scope
         .borrow_mut()
-        .set(self.get_name(), VariableType::Matcher(this_matcher.clone()));
+        .set_implicit(self.get_name(), VariableType::Matcher(this_matcher.clone()));
     }
   }
 
diff --git a/src/scope.rs b/src/scope.rs
index 87d4e45..bb4e2a4 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -1,4 +1,8 @@
-use std::{cell::RefCell, collections::HashMap, rc::Rc};
+use std::{
+  cell::RefCell,
+  collections::{HashMap, HashSet},
+  rc::Rc,
+};
 
 use crate::{matcher::MatcherRef, token::TokenRef};
 
@@ -14,12 +18,14 @@ pub type ScopeRef = Rc<RefCell<Scope>>;
 #[derive(Debug, Clone)]
 pub struct Scope {
   references: HashMap<String, VariableType>,
+  implicit: HashSet<String>,
 }
 
 impl Scope {
   pub fn new() -> ScopeRef {
     Rc::new(RefCell::new(Self {
       references: HashMap::new(),
+      implicit: HashSet::new(),
     }))
   }
 
@@ -32,8 +38,19 @@ impl Scope {
   }
 
   pub fn set(&mut self, name: &str, value: VariableType) -> Option<VariableType> {
+    self.implicit.remove(name);
     self.references.insert(name.to_string(), value)
   }
+
+  // Set a reference only if the name isn't already explicitly assigned
+  pub fn set_implicit(&mut self, name: &str, value: VariableType) {
+    if self.contains_key(name) && !self.implicit.contains(name) {
+      return;
+    }
+
+    self.references.insert(name.to_string(), value);
+    self.implicit.insert(name.to_string());
+  }
 }
 
 #[cfg(test)]
diff --git a/src/scope_context.rs b/src/scope_context.rs
index 901dee9..1ea9050 100644
--- a/src/scope_context.rs
+++ b/src/scope_context.rs
@@ -50,6 +50,16 @@ impl ScopeContext {
     let top = &mut self.stack[top_index];
     top.borrow_mut().set(name, value)
   }
+
+  pub fn set_implicit(&mut self, name: &str, value: VariableType) {
+    if self.stack.len() == 0 {
+      self.stack.push(Scope::new());
+    }
+
+    let top_index = self.stack.len() - 1;
+    let top = &mut self.stack[top_index];
+    top.borrow_mut().set_implicit(name, value)
+  }
 }
 
 #[cfg(test)]
-- 
2.43.0


From b5379801d1f5c1a94a9cb346b54260dc0f639346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 17/38] fix: update the parent of tokens that are moved to
 another token

---
 src/matchers/discard.rs      | 4 ++++
 src/matchers/expand_range.rs | 1 +
 src/parser_context.rs        | 1 +
 3 files changed, 6 insertions(+)

diff --git a/src/matchers/discard.rs b/src/matchers/discard.rs
index af2e65b..7ee43e6 100644
--- a/src/matchers/discard.rs
+++ b/src/matchers/discard.rs
@@ -100,6 +100,10 @@ fn collect_errors(error_token: TokenRef, walk_token: TokenRef) {
   let is_error = walk_token.borrow().flags_enabled(crate::token::IS_ERROR);
 
   if is_error {
+    walk_token
+      .borrow_mut()
+      .set_parent(Some(error_token.clone()));
+
     let mut error_token = error_token.borrow_mut();
     error_token.get_children_mut().push(walk_token.clone());
 
diff --git a/src/matchers/expand_range.rs b/src/matchers/expand_range.rs
index f1032fe..0448c76 100644
--- a/src/matchers/expand_range.rs
+++ b/src/matchers/expand_range.rs
@@ -46,6 +46,7 @@ impl ExpandRange {
             matched_range,
           );
 
+          token.borrow_mut().set_parent(Some(wrapper_token.clone()));
           wrapper_token.borrow_mut().add_child(token);
 
           Ok(MatcherSuccess::ProxyChildren(wrapper_token))
diff --git a/src/parser_context.rs b/src/parser_context.rs
index ca179c8..f3e6f4f 100644
--- a/src/parser_context.rs
+++ b/src/parser_context.rs
@@ -331,6 +331,7 @@ impl ParserContext {
           let is_error = token.borrow().flags_enabled(IS_ERROR);
 
           if is_error {
+            token.borrow_mut().set_parent(Some(root_token.clone()));
             root_token
               .borrow_mut()
               .get_children_mut()
-- 
2.43.0


From 9bdfd324e8d82b9b06b98ee9d45e70503f2d6f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 18/38] fix: a SetScope opens its scope on the scope it was
 given

---
 src/matchers/set_scope.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matchers/set_scope.rs b/src/matchers/set_scope.rs
index a39c973..76fe3e5 100644
--- a/src/matchers/set_scope.rs
+++ b/src/matchers/set_scope.rs
@@ -29,16 +29,16 @@ impl SetScopePattern {
   fn _exec(
     &self,
     context: ParserContextRef,
-    _: ScopeContextRef,
+    current_scope: ScopeContextRef,
   ) -> Result<MatcherSuccess, MatcherFailure> {
     let scope = match &self.scope {
       Some(scope) => scope.clone(),
       None => {
         // Push a new scope onto the stack
         let scope = Scope::new();
-        context.borrow().scope.borrow_mut().push(scope.clone());
+        current_scope.borrow_mut().push(scope.clone());
 
-        context.borrow().scope.clone()
+        current_scope.clone()
       }
     };
 
@@ -50,7 +50,7 @@ impl SetScopePattern {
 
     if self.scope.is_none() {
       // Pop scope from stack
-      context.borrow().scope.borrow_mut().pop();
+      current_scope.borrow_mut().pop();
     }
 
     result
-- 
2.43.0


From 160652ba9210cc617acca4be49ef4c31f2d81bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 19/38] fix: a Program token starts where the Program starts,
 so that a Panic inside it reports the right range

---
 src/matchers/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 6f8fc84..f4b94c8 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -162,7 +162,7 @@ impl ProgramPattern {
     let program_token = StandardToken::new(
       &sub_context.borrow().parser,
       self.name.to_string(),
-      SourceRange::new_blank(),
+      SourceRange::new(start_offset, start_offset),
     );
     let mut children = Vec::<TokenRef>::with_capacity(self.patterns.len());
     let mut captured_range = SourceRange::new(usize::MAX, 0);
-- 
2.43.0


From d6c063405f1b7816cee659a3143b5fbc4ff11523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 20/38] fix: unescape attribute values, as is done for every
 other string

---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 9147da4..9588274 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -174,7 +174,7 @@ fn construct_matcher_from_pattern_definition(
         let child = child.borrow();
         let child_children = child.get_children();
         let key = child_children[0].borrow().get_captured_value().clone();
-        let value = child_children[1].borrow().get_captured_value().clone();
+        let value = child_children[1].borrow().get_value().clone();
 
         attributes.insert(key, value);
       }
-- 
2.43.0


From 1c0face73d4cdd172877470ffce55be8bc2d18ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 21/38] fix: report the error of a script that is parsed as an
 error

---
 src/script/v1/matchers/script.rs |  2 +-
 src/script/v1/parser.rs          | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/matchers/script.rs b/src/script/v1/matchers/script.rs
index 4849081..4a3bb40 100644
--- a/src/script/v1/matchers/script.rs
+++ b/src/script/v1/matchers/script.rs
@@ -18,7 +18,7 @@ macro_rules! Script {
         let adextopa_scope = _token.find_child("AdextopaScope");
         let pattern_scope = _token.find_child("PatternScope");
 
-        if adextopa_scope.is_none() && pattern_scope.is_none() {
+        if adextopa_scope.is_none() && pattern_scope.is_none() && !_token.has_child("Error") {
           return $crate::ErrorTokenResult!(context.clone(), "Nothing to parse. No scopes found.", &token.borrow().get_matched_range());
         }
 
diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 9588274..1cffe09 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -271,6 +271,17 @@ fn build_matcher_from_tokens(
   importing: &[String],
   flags: u32,
 ) -> Result<(MatcherRef, ScopeContextRef), Vec<ParseError>> {
+  if root_token.borrow().get_name() == "Error" {
+    let token = root_token.borrow();
+
+    if let Some(error_message) = token.get_attribute("__message") {
+      return Err(vec![ParseError::new_with_range(
+        error_message,
+        token.get_matched_range().clone(),
+      )]);
+    }
+  }
+
   if root_token.borrow().get_name() != "Script" {
     return Err(vec![ParseError::new(
       "Expected provided token to be a `Script` token",
-- 
2.43.0


From 169868186f59bede3b1d4ac2e417c3bb7e6472de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:45 +0000
Subject: [PATCH 22/38] fix: do not ignore script text that follows the header
 and is not a pattern

---
 src/script/v1/matchers/script.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/script/v1/matchers/script.rs b/src/script/v1/matchers/script.rs
index 4a3bb40..d26c2c2 100644
--- a/src/script/v1/matchers/script.rs
+++ b/src/script/v1/matchers/script.rs
@@ -22,6 +22,16 @@ macro_rules! Script {
           return $crate::ErrorTokenResult!(context.clone(), "Nothing to parse. No scopes found.", &token.borrow().get_matched_range());
         }
 
+        // Anything that is left must not be silently ignored
+        let end = _token.get_matched_range().end;
+        let parser = _token.get_parser();
+        let parser = parser.borrow();
+        let source = parser.get_source();
+
+        if !_token.has_child("Error") && source[end..].trim() != "" {
+          return $crate::ErrorTokenResult!(context.clone(), &format!("Syntax error. Expected a pattern defintion, but instead found: {}", &source[end..]), &$crate::source_range::SourceRange::new(end, source.len()));
+        }
+
         $crate::TokenResult!(token.clone())
       }
     )
-- 
2.43.0


From 17dd80b41cc3e19756fbe7599be69e5b94a9157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:59 +0000
Subject: [PATCH 23/38] fix: PinToken texts follow its ranges when they are set

---
 src/matchers/pin.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matchers/pin.rs b/src/matchers/pin.rs
index a3b5f95..71686d6 100644
--- a/src/matchers/pin.rs
+++ b/src/matchers/pin.rs
@@ -132,6 +132,7 @@ impl Token for PinToken {
 
   fn set_captured_range(&mut self, range: crate::source_range::SourceRange) {
     self.captured_range = range;
+    self.captured_value = range.to_string(&self.parser);
   }
 
   fn get_matched_range(&self) -> &crate::source_range::SourceRange {
@@ -144,6 +145,7 @@ impl Token for PinToken {
 
   fn set_matched_range(&mut self, range: crate::source_range::SourceRange) {
     self.matched_range = range;
+    self.matched_value = range.to_string(&self.parser);
   }
 
   fn get_name(&self) -> &String {
-- 
2.43.0


From 285c0c876241b675eb6135e9efec2f55c7825a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 24/38] fix: a Break goes on through a Program that collected
 nothing

---
 src/matchers/program.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index f4b94c8..62f3b7e 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -457,8 +457,15 @@ impl ProgramPattern {
                 Ok(final_token) => {
                   return Ok(MatcherSuccess::Break((loop_name, Box::new(final_token))));
                 }
-                Err(error) => {
-                  return Err(error);
+                Err(_) => {
+                  // Nothing was collected, so there is only the skipped
+                  // text (if any) to hand over with the Break
+                  let amount = (sub_context.borrow().offset.start - start_offset) as isize;
+
+                  return Ok(MatcherSuccess::Break((
+                    loop_name,
+                    Box::new(MatcherSuccess::Skip(amount)),
+                  )));
                 }
               }
             }
-- 
2.43.0


From b8b941ea525d65ebbac28b1868dec65285e50519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 25/38] fix: do not panic when a Program collects an empty
 token

---
 src/matchers/program.rs | 24 ------------------------
 1 file changed, 24 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 62f3b7e..81c9bb5 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -233,7 +233,6 @@ impl ProgramPattern {
                 &mut matched_range,
                 &token,
                 is_consuming,
-                is_consuming,
               );
             }
             MatcherSuccess::ProxyChildren(token) => {
@@ -382,7 +381,6 @@ impl ProgramPattern {
                   &mut captured_range,
                   &mut matched_range,
                   &token,
-                  false,
                   true,
                 );
 
@@ -495,7 +493,6 @@ impl ProgramPattern {
                   &mut captured_range,
                   &mut matched_range,
                   &token,
-                  false,
                   true,
                 );
 
@@ -653,30 +650,12 @@ fn add_token_to_children(
   captured_range: &mut SourceRange,
   matched_range: &mut SourceRange,
   token: &TokenRef,
-  assert_moving_forward: bool,
   update_offsets: bool,
 ) {
   {
     if !token.borrow().flags_enabled(IS_ERROR) {
       let token = token.borrow();
 
-      if assert_moving_forward && update_offsets {
-        // Ensure that we are moving forward, and that the token doesn't have a zero width
-        if token.get_matched_range().end == context.borrow().offset.start {
-          if context.borrow().debug_mode_level() > 1 {
-            print!("{{{}/AddChild}} ", program_token.borrow().get_name());
-          }
-
-          println!(
-            "`{}` Panic! Not moving forward when attempting to add child `{}`...",
-            program_token.borrow().get_name(),
-            token.get_name()
-          );
-
-          assert!(token.get_matched_range().end != context.borrow().offset.start);
-        }
-      }
-
       if update_offsets {
         // captured_range is set to matched_range because the program
         // should always span the range of all child tokens
@@ -727,7 +706,6 @@ fn handle_token(
   captured_range: &mut SourceRange,
   matched_range: &mut SourceRange,
   token: &TokenRef,
-  assert_moving_forward: bool,
   update_offsets: bool,
 ) {
   if context.borrow().debug_mode_level() > 0 {
@@ -755,7 +733,6 @@ fn handle_token(
     captured_range,
     matched_range,
     token,
-    assert_moving_forward,
     update_offsets && !should_discard,
   );
 
@@ -851,7 +828,6 @@ fn handle_extract_token(
       captured_range,
       matched_range,
       &child,
-      false,
       update_offsets && !should_discard,
     );
   }
-- 
2.43.0


From d3d5b9f3d18a1dcd880a8b6bce02f201381f3959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 26/38] fix: hand a Continue on to the Loop it names

---
 src/matchers/program.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 81c9bb5..5bfa54d 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -478,7 +478,7 @@ impl ProgramPattern {
                   );
                 }
 
-                return Ok(MatcherSuccess::Break((loop_name, data)));
+                return Ok(MatcherSuccess::Continue((loop_name, data)));
               }
               _ => {}
             }
@@ -538,7 +538,7 @@ impl ProgramPattern {
                 );
               }
 
-              return finalize_program_token(
+              match finalize_program_token(
                 program_token,
                 children,
                 captured_range,
@@ -546,7 +546,21 @@ impl ProgramPattern {
                 &self.iterate_range,
                 loop_count,
                 false,
-              );
+              ) {
+                Ok(final_token) => {
+                  return Ok(MatcherSuccess::Continue((loop_name, Box::new(final_token))));
+                }
+                Err(_) => {
+                  // Nothing was collected, so there is only the skipped
+                  // text (if any) to hand over with the Continue
+                  let amount = (sub_context.borrow().offset.start - start_offset) as isize;
+
+                  return Ok(MatcherSuccess::Continue((
+                    loop_name,
+                    Box::new(MatcherSuccess::Skip(amount)),
+                  )));
+                }
+              }
             }
           }
           MatcherSuccess::Stop => {
-- 
2.43.0


From 4973fd1edf894bbf9a9160177d892aed435ab48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 27/38] fix: do not overflow when a Break or Continue leaves a
 Program before where it began

---
 src/matchers/program.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 5bfa54d..aaf2724 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -458,7 +458,7 @@ impl ProgramPattern {
                 Err(_) => {
                   // Nothing was collected, so there is only the skipped
                   // text (if any) to hand over with the Break
-                  let amount = (sub_context.borrow().offset.start - start_offset) as isize;
+                  let amount = sub_context.borrow().offset.start as isize - start_offset as isize;
 
                   return Ok(MatcherSuccess::Break((
                     loop_name,
@@ -553,7 +553,7 @@ impl ProgramPattern {
                 Err(_) => {
                   // Nothing was collected, so there is only the skipped
                   // text (if any) to hand over with the Continue
-                  let amount = (sub_context.borrow().offset.start - start_offset) as isize;
+                  let amount = sub_context.borrow().offset.start as isize - start_offset as isize;
 
                   return Ok(MatcherSuccess::Continue((
                     loop_name,
-- 
2.43.0


From e1af1d35ee4b89358eb44fd060be0d118e86eed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 28/38] fix: do not overflow when a Program skips back to a
 discarded Pin

---
 src/matchers/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index aaf2724..b1167d2 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -864,7 +864,7 @@ fn handle_skip(
   start_offset: usize,
   offset: isize,
 ) {
-  let new_offset = context.borrow().offset.start + offset as usize;
+  let new_offset = (context.borrow().offset.start as isize + offset) as usize;
 
   if context.borrow().is_debug_mode() {
     if context.borrow().debug_mode_level() > 1 {
-- 
2.43.0


From 77f189e678891243a43f77aaa381733b9c0a17e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:59 +0000
Subject: [PATCH 29/38] fix: a visitor could not modify the token it is given

The token was kept borrowed while its visitor ran (and all its parents with
it), so that any change of it panicked.
---
 src/token_visitor.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/token_visitor.rs b/src/token_visitor.rs
index 836d8d0..e989fc3 100644
--- a/src/token_visitor.rs
+++ b/src/token_visitor.rs
@@ -40,9 +40,10 @@ impl<'a> TokenVisitor<'a> {
     default_hook: Option<Rc<RefCell<Box<dyn FnMut(TokenRef) -> Result<(), ParseError> + 'a>>>>,
     token: TokenRef,
   ) -> Result<(), ParseError> {
-    let _token = token.borrow();
+    // Don't keep the token borrowed, so that the hooks are able to modify it
+    let name = token.borrow().get_name().to_string();
 
-    if let Some(ref hook) = self.find_hook(_token.get_name()) {
+    if let Some(ref hook) = self.find_hook(&name) {
       match (hook.clone().borrow_mut())(token.clone()) {
         Err(error) => return Err(error),
         Ok(_) => {}
@@ -55,9 +56,8 @@ impl<'a> TokenVisitor<'a> {
       }
     }
 
-    for child in _token.get_children() {
-      let _child = child.borrow();
-
+    let children = token.borrow().get_children().clone();
+    for child in &children {
       let result = match default_hook {
         Some(ref default_hook) => self._visit(Some(default_hook.clone()), child.clone()),
         None => self._visit(None, child.clone()),
-- 
2.43.0


From 61b511706b576401ed8a769d6529fcc200e8aaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:09 +0000
Subject: [PATCH 30/38] fix: printing a matcher with an explicit scope could
 overflow the stack

A scope printed the matchers that are bound in it. One of these can contain
the scope itself, through a SetScope, so that the printing never ended.
---
 src/scope.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/scope.rs b/src/scope.rs
index bb4e2a4..140c31b 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -6,13 +6,27 @@ use std::{
 
 use crate::{matcher::MatcherRef, token::TokenRef};
 
-#[derive(Debug, Clone)]
+#[derive(Clone)]
 pub enum VariableType {
   Token(TokenRef),
   String(String),
   Matcher(MatcherRef),
 }
 
+impl std::fmt::Debug for VariableType {
+  fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+    match self {
+      VariableType::Token(token) => f.debug_tuple("Token").field(token).finish(),
+      VariableType::String(value) => f.debug_tuple("String").field(value).finish(),
+      // Only the name, as a matcher is able to contain the scope that it is stored in
+      VariableType::Matcher(matcher) => match matcher.try_borrow() {
+        Ok(matcher) => f.debug_tuple("Matcher").field(&matcher.get_name()).finish(),
+        Err(_) => f.write_str("Matcher"),
+      },
+    }
+  }
+}
+
 pub type ScopeRef = Rc<RefCell<Scope>>;
 
 #[derive(Debug, Clone)]
-- 
2.43.0


From c6b72df63b919c9ebc79c1ca65eb75984f6790a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:20 +0000
Subject: [PATCH 31/38] fix: a preview of any length panicked

debug_range(usize::MAX) behind the start of the source overflowed.
---
 src/parser_context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser_context.rs b/src/parser_context.rs
index f3e6f4f..f6d6695 100644
--- a/src/parser_context.rs
+++ b/src/parser_context.rs
@@ -144,7 +144,7 @@ impl ParserContext {
 
   pub fn debug_range(&self, max_len: usize) -> String {
     let parser = self.parser.borrow();
-    let mut end_offset = self.offset.start + max_len;
+    let mut end_offset = self.offset.start.saturating_add(max_len);
 
     if end_offset > self.offset.end {
       end_offset = self.offset.end;
-- 
2.43.0


From 1a84c68f87f0b4bd364dfc5f723cafc4d517a12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:29 +0000
Subject: [PATCH 32/38] fix: importing a root pattern under two names gave both
 the second name

---
 src/script/v1/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 1cffe09..fef5559 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -405,11 +405,17 @@ fn build_matcher_from_tokens(
             return Err(ParseError::new_with_range("Error root import '_' must be named using 'import {{ _ as Name }}'", identifier_token.borrow().get_matched_range().clone()));
           }
 
-          import_root_matcher.borrow_mut().set_name(&import_name);
+          // Each name gets a root pattern of its own, as the
+          // same root might be imported under several names
+          let named_root_matcher = ProgramPattern::new_program_with_name(
+            import_root_matcher.borrow().get_children().unwrap_or_default(),
+            import_name.clone(),
+            MatchAction::Continue,
+          );
 
           // This should work all on its own, because this is the root pattern
           // and it implements its own scope when called
-          scope_context.borrow_mut().set(&import_name, VariableType::Matcher(import_root_matcher.clone()));
+          scope_context.borrow_mut().set(&import_name, VariableType::Matcher(named_root_matcher));
         } else {
           let reference_matcher = import_scope_context.borrow().get(&identifier);
 
-- 
2.43.0


From e704c02ff63853d2ab091d870173065f43aeafda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:21 +0000
Subject: [PATCH 33/38] fix: an attribute named by a lone underscore was
 accepted

---
 src/script/v1/matchers/attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/matchers/attribute.rs b/src/script/v1/matchers/attribute.rs
index cd07921..9615b76 100644
--- a/src/script/v1/matchers/attribute.rs
+++ b/src/script/v1/matchers/attribute.rs
@@ -11,7 +11,7 @@ macro_rules! ScriptAttribute {
       $crate::ScriptString!("Value"),
       $crate::Pin!("Pin", $crate::Fetch!("AttributeStartOffset.range");
         $crate::AssertIf!(
-          $crate::Matches!(r"_[\w+_]+"),
+          $crate::Matches!(r"_[\w+_]*"),
           "Attribute names can not start with an underscore"
         )
       )
-- 
2.43.0


From 1fa11fdcfcc176f30c05d90bc7ee92e1318b223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:42 +0000
Subject: [PATCH 34/38] fix: a script in which a closing bracket is missing was
 accepted

---
 src/script/v1/matchers/program_matcher.rs | 14 ++++---------
 src/script/v1/matchers/switch_matcher.rs  | 24 +++++------------------
 2 files changed, 9 insertions(+), 29 deletions(-)

diff --git a/src/script/v1/matchers/program_matcher.rs b/src/script/v1/matchers/program_matcher.rs
index 243240f..45dba53 100644
--- a/src/script/v1/matchers/program_matcher.rs
+++ b/src/script/v1/matchers/program_matcher.rs
@@ -7,17 +7,11 @@ macro_rules! ScriptProgramMatcher {
         $crate::Loop!(
           $crate::ScriptWSN0!(?),
           $crate::ScriptPattern!(),
-          $crate::ScriptWSN0!(?),
-          $crate::Discard!(
-            $crate::Optional!(
-              $crate::Program!(
-                $crate::Equals!("}"),
-                $crate::Break!(),
-              )
-            )
-          )
+          $crate::ScriptWSN0!(?)
         )
-      )
+      ),
+      $crate::ScriptWSN0!(?),
+      $crate::Discard!($crate::Equals!("}"))
     )
   };
 }
diff --git a/src/script/v1/matchers/switch_matcher.rs b/src/script/v1/matchers/switch_matcher.rs
index 6cf3fd3..a0a6cf6 100644
--- a/src/script/v1/matchers/switch_matcher.rs
+++ b/src/script/v1/matchers/switch_matcher.rs
@@ -6,27 +6,13 @@ macro_rules! ScriptSwitchMatcher {
       $crate::ProxyChildren!(
         $crate::Loop!(
           $crate::ScriptWSN0!(?),
-          $crate::Switch!(
-            $crate::Discard!(
-              $crate::Program!(
-                $crate::Equals!("]"),
-                $crate::Break!(),
-              )
-            ),
-            $crate::ScriptPattern!(),
-          ),
+          $crate::ScriptPattern!(),
           $crate::ScriptWSN0!(?),
-          $crate::Discard!(
-            $crate::Switch!(
-              $crate::Equals!("|"),
-              $crate::Program!(
-                $crate::Equals!("]"),
-                $crate::Break!(),
-              )
-            )
-          )
+          $crate::Discard!($crate::Equals!("|"))
         )
-      )
+      ),
+      $crate::ScriptWSN0!(?),
+      $crate::Discard!($crate::Equals!("]"))
     )
   };
 }
-- 
2.43.0


From ee6d8980be76572a26dede7cb2b9dac819f841da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:02 +0000
Subject: [PATCH 35/38] fix: a syntax error in a script was always reported at
 its first character

---
 src/script/v1/matchers/pattern_scope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/matchers/pattern_scope.rs b/src/script/v1/matchers/pattern_scope.rs
index 45ebd34..87ddd58 100644
--- a/src/script/v1/matchers/pattern_scope.rs
+++ b/src/script/v1/matchers/pattern_scope.rs
@@ -16,7 +16,7 @@ macro_rules! ScriptPatternScope {
         let source = &parser.borrow().source;
 
         if token_range.end < source.len() {
-          return $crate::ErrorTokenResult!(context.clone(), &format!("Syntax error. Expected a pattern defintion, but instead found: {}", &source[token_range.end..]));
+          return $crate::ErrorTokenResult!(context.clone(), &format!("Syntax error. Expected a pattern defintion, but instead found: {}", &source[token_range.end..]), &$crate::source_range::SourceRange::new(token_range.end, source.len()));
         }
 
         $crate::TokenResult!(token.clone())
-- 
2.43.0


From cc7e94bca550f1e4fc54b9fb3396213c8e012495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:29 +0000
Subject: [PATCH 36/38] fix: a regex in a script could not contain an escaped
 slash

---
 src/script/v1/parser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index fef5559..32f2c59 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -24,6 +24,10 @@ lazy_static::lazy_static! {
   static ref REPEAT_SPECIFIER: regex::Regex = regex::Regex::new(r"^(RepeatZeroOrMore|RepeatOneOrMore|RepeatRange)$").expect("Could not compile needed Regex for `script::Parser`");
 }
 
+lazy_static::lazy_static! {
+  static ref ESCAPE: regex::Regex = regex::Regex::new(r"(?s)\\(.)").expect("Could not compile needed Regex for `script::Parser`");
+}
+
 pub const FLAG_LOG_STDERR: u32 = 0x01;
 
 fn construct_matcher_from_inner_definition(
@@ -48,6 +52,14 @@ fn construct_matcher_from_inner_definition(
       return Err("Value can not be empty for a `Matches` pattern definition".to_string());
     }
 
+    // An escaped `/` does not end the regex, but `regex` itself knows no such escape
+    value = ESCAPE
+      .replace_all(&value, |captures: &regex::Captures| match &captures[1] {
+        "/" => "/".to_string(),
+        _ => captures[0].to_string(),
+      })
+      .to_string();
+
     if let Some(flags) = matcher_token.find_child("Flags") {
       value = format!("(?{}){}", flags.borrow().get_captured_value(), value);
     }
-- 
2.43.0


From e4930e5afa1c0995a91463eb823833ece34b1500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:07 +0000
Subject: [PATCH 37/38] fix: an error in a pattern of a script was always
 reported at [1:1]

---
 src/script/v1/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 32f2c59..beeaa39 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -352,7 +352,7 @@ fn build_matcher_from_tokens(
             scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(defined_matchers.0.clone()));
           },
           Err(error) => {
-            return Err(ParseError::new(&format!("Error attempting to create matcher from parsed pattern token: {}", error)));
+            return Err(ParseError::new_with_range(&format!("Error attempting to create matcher from parsed pattern token: {}", error), _value.get_matched_range().clone()));
           }
         }
       }
@@ -466,7 +466,7 @@ fn build_matcher_from_tokens(
               scoped_matcher.borrow_mut().add_pattern(defined_matchers.0);
             },
             Err(error) => {
-              return Err(ParseError::new(&format!("Error attempting to create matcher from parsed pattern token: {}", error)));
+              return Err(ParseError::new_with_range(&format!("Error attempting to create matcher from parsed pattern token: {}", error), _child.get_matched_range().clone()));
             }
           }
         }
-- 
2.43.0


From 37685e2e801a1b20abd05ca58f0b20a9f507c2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:04 +0000
Subject: [PATCH 38/38] fix: a Pin at offsets that do not exist panicked
 instead of failing

---
 src/matchers/pin.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/matchers/pin.rs b/src/matchers/pin.rs
index 71686d6..2a163be 100644
--- a/src/matchers/pin.rs
+++ b/src/matchers/pin.rs
@@ -26,9 +26,9 @@ fn is_empty_offset(offset_str: &str) -> bool {
   }
 }
 
-fn parse_offset(start: usize, end: usize, offset_str: &str) -> usize {
+fn parse_offset(start: usize, end: usize, offset_str: &str) -> Result<usize, MatcherFailure> {
   if !is_empty_offset(offset_str) {
-    let prefix = &offset_str[0..1];
+    let prefix = offset_str.get(0..1).unwrap_or("");
     let part: &str;
 
     let has_prefix = if prefix == "+" || prefix == "-" {
@@ -43,23 +43,23 @@ fn parse_offset(start: usize, end: usize, offset_str: &str) -> usize {
       Ok(offset) => {
         if has_prefix {
           if prefix == "-" {
-            start - offset
+            start.checked_sub(offset).ok_or(MatcherFailure::Fail)
           } else {
-            start + offset
+            start.checked_add(offset).ok_or(MatcherFailure::Fail)
           }
         } else {
-          offset
+          Ok(offset)
         }
       }
       Err(err) => {
-        panic!(
+        Err(MatcherFailure::Error(ParseError::new(&format!(
           "Error while attempting to parse `Pin` start offset [{}]: {}",
           offset_str, err
-        );
+        ))))
       }
     }
   } else {
-    end
+    Ok(end)
   }
 }
 
@@ -338,7 +338,7 @@ where
     {
       let start_offset = sub_context.borrow().offset.start;
       sub_context.borrow_mut().offset.start =
-        parse_offset(start_offset, start_offset, offset_value_parts[0]);
+        parse_offset(start_offset, start_offset, offset_value_parts[0])?;
     }
 
     // Set end offset (if specified)
@@ -346,12 +346,18 @@ where
       let start_offset = sub_context.borrow().offset.start;
       let end_offset = sub_context.borrow().offset.end;
       sub_context.borrow_mut().offset.end =
-        parse_offset(start_offset, end_offset, offset_value_parts[1]);
+        parse_offset(start_offset, end_offset, offset_value_parts[1])?;
     }
 
     let start_offset = sub_context.borrow().offset.start;
     let end_offset = sub_context.borrow().offset.end;
 
+    // Offsets that do not exist in the source can not be matched
+    let parser = sub_context.borrow().parser.clone();
+    if parser.borrow().source.get(start_offset..end_offset).is_none() {
+      return Err(MatcherFailure::Fail);
+    }
+
     match &self.pattern {
       Some(matcher) => matcher
         .borrow()
-- 
2.43.0

