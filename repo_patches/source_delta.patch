From 2f75663cc3be0d8e4f5561c6cf18b0dc7602e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 01/24] fix: do not panic when a doubled symbol that is no
 operator follows an expression

---
 cpparser/src/subparsers/operators/usage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpparser/src/subparsers/operators/usage.rs b/cpparser/src/subparsers/operators/usage.rs
index a9c3fe0..8da1d03 100644
--- a/cpparser/src/subparsers/operators/usage.rs
+++ b/cpparser/src/subparsers/operators/usage.rs
@@ -111,7 +111,9 @@ impl EntityParser {
                     AddPlus | SubNeg => false,
                     AndRef | Or | AssignEq | Less => true,
                     Greater => allow_greater,
-                    Xor | Mod | Div | MulDeref | BitNot | Not | Comma => unreachable!(),
+                    // These are not operators, but two of these symbols may
+                    // follow each other, as in the expression "a**b"
+                    Xor | Mod | Div | MulDeref | BitNot | Not | Comma => false,
                 }
             }
             // This may need to be revised as C++ evolves
-- 
2.43.0


From 92000a7d3064f93aba0084313735002456625f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 02/24] fix: display functions whose only parameter is an
 ellipsis as f(...)

---
 cpparser/src/subparsers/functions.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cpparser/src/subparsers/functions.rs b/cpparser/src/subparsers/functions.rs
index 02c0a1f..a5a72ad 100644
--- a/cpparser/src/subparsers/functions.rs
+++ b/cpparser/src/subparsers/functions.rs
@@ -376,6 +376,7 @@ impl CustomDisplay for FunctionSignatureView<'_> {
     fn recursion_depth(&self) -> usize {
         self.parameters()
             .recursion_depth()
+            .max(usize::from(self.variadic()))
             .max(self.noexcept().recursion_depth())
             .max(self.trailing_return().recursion_depth())
     }
@@ -385,9 +386,16 @@ impl CustomDisplay for FunctionSignatureView<'_> {
             write!(f, "[abi:{abi}]")?;
         }
 
-        self.parameters().display_impl(f, state)?;
-        if state.can_recurse() && self.variadic() {
-            write!(f, ", ...")?;
+        let parameters = self.parameters();
+        parameters.display_impl(f, state)?;
+        if self.variadic() {
+            match (parameters.is_empty(), state.can_recurse()) {
+                (false, true) => write!(f, ", ...")?,
+                (true, true) => write!(f, "...")?,
+                // The elided parameter list already stands for the ellipsis
+                (false, false) => {}
+                (true, false) => write!(f, "…")?,
+            }
         }
         write!(f, ")")?;
 
-- 
2.43.0


From 5b8394c9e843af2586b394ece50d5ff23ace1994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 03/24] fix: account for the leading :: in the recursion depth
 of a name

---
 cpparser/src/subparsers/names/scopes.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpparser/src/subparsers/names/scopes.rs b/cpparser/src/subparsers/names/scopes.rs
index c8ae1aa..47292de 100644
--- a/cpparser/src/subparsers/names/scopes.rs
+++ b/cpparser/src/subparsers/names/scopes.rs
@@ -344,7 +344,9 @@ impl Display for NestedNameSpecifierView<'_> {
 //
 impl CustomDisplay for NestedNameSpecifierView<'_> {
     fn recursion_depth(&self) -> usize {
-        self.scopes().recursion_depth()
+        self.scopes()
+            .recursion_depth()
+            .max(usize::from(self.is_rooted()))
     }
 
     fn display_impl(&self, f: &mut Formatter<'_>, state: &DisplayState) -> Result<(), fmt::Error> {
-- 
2.43.0


From 3ab0dbb694fa22d15bf8f6464b19ecc80a6f01de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:38 +0000
Subject: [PATCH 04/24] fix: display character literals with escape sequences
 that C++ understands

---
 cpparser/src/subparsers/values/literals.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpparser/src/subparsers/values/literals.rs b/cpparser/src/subparsers/values/literals.rs
index 7658e80..b8fca59 100644
--- a/cpparser/src/subparsers/values/literals.rs
+++ b/cpparser/src/subparsers/values/literals.rs
@@ -145,6 +145,10 @@ impl Display for LiteralValue {
         match self {
             Self::I64(i) => write!(f, "{i}"),
             Self::U64(u) => write!(f, "{u}"),
+            // C++ does not understand Rust's \u{...} escape sequences
+            Self::Char(c) if c.escape_debug().nth(1) == Some('u') => {
+                write!(f, "'\\x{:x}'", u32::from(*c))
+            }
             Self::Char(c) => write!(f, "{c:?}"),
         }
     }
-- 
2.43.0


From 00ea2d0a00157a36da42f7935336c12043fdab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:31 +0000
Subject: [PATCH 05/24] fix: report relative file paths as errors instead of
 panicking

---
 .../src/stats/activity/argument.rs            |  2 +-
 cpparser/src/lib.rs                           | 23 ++++++++++++-------
 cpparser/src/subparsers/anonymous.rs          |  2 +-
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/clang-time-trace/src/stats/activity/argument.rs b/clang-time-trace/src/stats/activity/argument.rs
index a1ff0ef..30a302c 100644
--- a/clang-time-trace/src/stats/activity/argument.rs
+++ b/clang-time-trace/src/stats/activity/argument.rs
@@ -88,7 +88,7 @@ impl RawActivityArgument {
                     Ok(ParsedActivityArgument::Module)
                 } else {
                     Ok(ParsedActivityArgument::FilePath(
-                        parser.intern_path(&detail),
+                        parser.try_intern_path(&detail)?,
                     ))
                 }
             }
diff --git a/cpparser/src/lib.rs b/cpparser/src/lib.rs
index 7ab4502..82d0e4c 100644
--- a/cpparser/src/lib.rs
+++ b/cpparser/src/lib.rs
@@ -26,7 +26,8 @@ use crate::{
 };
 use asylum::{
     lasso::{MiniSpur, Rodeo, Spur},
-    path, Interner,
+    path::{self, PathError},
+    Interner,
 };
 use nom::{error::Error, Parser};
 use nom_supreme::ParserExt;
@@ -158,16 +159,22 @@ impl EntityParser {
     /// appearing in C++ entity names, but appear in other context, can be
     /// interned using the same infrastructure for key comparability.
     ///
+    /// Relative file paths are not interpretable, this will panic upon
+    /// encountering one. Use try_intern_path if you cannot rule them out.
+    ///
     pub fn intern_path(&mut self, path: &str) -> PathKey {
-        self.intern_path_imut(path)
+        self.try_intern_path(path)
+            .expect("Encountered relative (and thus non-interpretable) file path")
     }
 
-    /// Implementation of intern_path with internal mutability
-    pub(crate) fn intern_path_imut(&self, path: &str) -> PathKey {
-        self.paths
-            .borrow_mut()
-            .intern(path)
-            .expect("Encountered relative (and thus non-interpretable) file path")
+    /// Version of intern_path that reports relative file paths as errors
+    pub fn try_intern_path(&mut self, path: &str) -> Result<PathKey, PathError> {
+        self.try_intern_path_imut(path)
+    }
+
+    /// Implementation of try_intern_path with internal mutability
+    pub(crate) fn try_intern_path_imut(&self, path: &str) -> Result<PathKey, PathError> {
+        self.paths.borrow_mut().intern(path)
     }
 
     /// Retrieve a previously interned path
diff --git a/cpparser/src/subparsers/anonymous.rs b/cpparser/src/subparsers/anonymous.rs
index 4efec91..cfd1beb 100644
--- a/cpparser/src/subparsers/anonymous.rs
+++ b/cpparser/src/subparsers/anonymous.rs
@@ -156,7 +156,7 @@ impl EntityParser {
 
         let disk_designator = anychar.and(char(':'));
         let path_str = recognize(opt(disk_designator).and(take_till1(|c| c == ':')));
-        let path = path_str.map(|path| self.intern_path_imut(path));
+        let path = path_str.map_res(|path| self.try_intern_path_imut(path));
 
         let source_location = separated_pair(path, char(':'), location);
         source_location
-- 
2.43.0


From 6e89a705230fc1e61c5456cb633c134086f0a625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:00 +0000
Subject: [PATCH 06/24] fix: give the key of a known sequence even if the key
 space is exhausted

---
 asylum/src/sequence.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asylum/src/sequence.rs b/asylum/src/sequence.rs
index 0e9a8aa..6c4d7cc 100644
--- a/asylum/src/sequence.rs
+++ b/asylum/src/sequence.rs
@@ -259,12 +259,9 @@ impl<Item: Clone + Eq + Hash, K: InternerKey<ImplKey = Range<usize>>> SequenceEn
 
     /// Finish the interning transaction
     pub fn intern(self) -> K {
-        // Hash the input sequence and figure what its interning key would be
+        // Hash the input sequence
         let sequence = &self.interner.concatenated[self.initial_concatenated_len..];
         let hash = self.interner.random_state.hash_one(sequence);
-        let start = self.initial_concatenated_len;
-        let new_key = K::try_from_impl_key(start..start + sequence.len())
-            .expect("Key space exhausted, please use a bigger K");
 
         // If this sequence was interned before, return the same key
         if let Some(old_key) = self.interner.get_sequence_key(hash, sequence) {
@@ -272,6 +269,9 @@ impl<Item: Clone + Eq + Hash, K: InternerKey<ImplKey = Range<usize>>> SequenceEn
         } else {
             // Otherwise, intern the sequence, and inhibit drop so that the
             // items that we just interned are not discarded
+            let start = self.initial_concatenated_len;
+            let new_key = K::try_from_impl_key(start..start + sequence.len())
+                .expect("Key space exhausted, please use a bigger K");
             self.interner.insert_sequence_key(hash, new_key);
             std::mem::forget(self);
             new_key
-- 
2.43.0


From 0523cdef64f2e3c046be5f8b8ca9b4cad46ee7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 07/24] fix: traces without events are rejected instead of
 panicking

---
 clang-time-trace/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clang-time-trace/src/lib.rs b/clang-time-trace/src/lib.rs
index d42f745..2fdce39 100644
--- a/clang-time-trace/src/lib.rs
+++ b/clang-time-trace/src/lib.rs
@@ -252,7 +252,7 @@ impl FromStr for ClangTrace {
         };
 
         // Process the trace events
-        let mut activities = ActivityTreeBuilder::with_capacity(profile_ctf.traceEvents.len() - 1);
+        let mut activities = ActivityTreeBuilder::with_capacity(profile_ctf.traceEvents.len());
         let mut global_stats = HashMap::new();
         let mut process_name = None;
         let mut thread_name = None;
-- 
2.43.0


From 8455c6dfcd96588a1eb2378c1cd8212943c0d63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:55 +0000
Subject: [PATCH 08/24] fix: empty activity details are loaded instead of
 panicking

---
 clang-time-trace/src/stats/activity/argument.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/clang-time-trace/src/stats/activity/argument.rs b/clang-time-trace/src/stats/activity/argument.rs
index 30a302c..256d12a 100644
--- a/clang-time-trace/src/stats/activity/argument.rs
+++ b/clang-time-trace/src/stats/activity/argument.rs
@@ -275,13 +275,11 @@ impl ActivityArgumentType {
         // entity without invoking a C++ parser, which is expensive, so that
         // will be our default case when things does not look like info text.
         //
-        if !detail
-            .chars()
-            .next()
-            .expect("detail is not empty if detail_arg() returned Ok")
-            .is_uppercase()
-        {
-            return ActivityArgumentType::CppEntity;
+        match detail.chars().next() {
+            // There is nothing to be parsed in an empty detail
+            None => return ActivityArgumentType::String,
+            Some(first) if !first.is_uppercase() => return ActivityArgumentType::CppEntity,
+            Some(_) => {}
         }
         let mut can_be_string = true;
         'words: for word in detail.split(' ') {
-- 
2.43.0


From aeb013da9a4f2d74f8423c9733f7e58e7c0fed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:59 +0000
Subject: [PATCH 09/24] fix: names that are not mangled are not demangled as
 types

---
 .../src/stats/activity/argument.rs            | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/clang-time-trace/src/stats/activity/argument.rs b/clang-time-trace/src/stats/activity/argument.rs
index 256d12a..cc12ac2 100644
--- a/clang-time-trace/src/stats/activity/argument.rs
+++ b/clang-time-trace/src/stats/activity/argument.rs
@@ -143,19 +143,24 @@ impl RawActivityArgument {
             symbol = Rc::from(&symbol[1..symbol.len() - 1]);
         }
 
-        let demangling_result = MangledSymbol::new_with_options(
-            &*symbol,
-            &ParseOptions::default().recursion_limit(CPP_DEMANGLE_RECURSION_LIMIT),
-        )
-        .map(|s| {
-            demangling_buf.clear();
-            s.structured_demangle(
-                &mut *demangling_buf,
-                &DemangleOptions::default()
-                    .hide_expression_literal_types()
-                    .no_return_type()
-                    .recursion_limit(CPP_DEMANGLE_RECURSION_LIMIT),
+        // Mangled names start with an underscore, but cpp_demangle also accepts
+        // bare mangled types. This is not what we want, as it would turn a C
+        // function called "f" into "float".
+        let demangling_result = symbol.starts_with('_').then(|| {
+            MangledSymbol::new_with_options(
+                &*symbol,
+                &ParseOptions::default().recursion_limit(CPP_DEMANGLE_RECURSION_LIMIT),
             )
+            .map(|s| {
+                demangling_buf.clear();
+                s.structured_demangle(
+                    &mut *demangling_buf,
+                    &DemangleOptions::default()
+                        .hide_expression_literal_types()
+                        .no_return_type()
+                        .recursion_limit(CPP_DEMANGLE_RECURSION_LIMIT),
+                )
+            })
         });
 
         let mut parse_demangled = |entity: Rc<str>| -> ParsedSymbol {
@@ -167,11 +172,11 @@ impl RawActivityArgument {
         };
         let parsed = match demangling_result {
             // Mangled symbol was successfully demangled, intern it along with the rest
-            Ok(Ok(())) => parse_demangled(demangling_buf.clone().into()),
+            Some(Ok(Ok(()))) => parse_demangled(demangling_buf.clone().into()),
 
             // Symbol failed to demangle, try some patterns that cpp_demangle
             // should not reject but actually does reject before giving up
-            Ok(Err(_)) | Err(_) => match &*symbol {
+            Some(Ok(Err(_)) | Err(_)) | None => match &*symbol {
                 "main" | "__clang_call_terminate" => parse_demangled(symbol),
                 _ => ParsedSymbol::MaybeMangled(symbol),
             },
-- 
2.43.0


From 1967ff74c24cc25b2d4faf4320766124109d6e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 10/24] Hooks for verification harnesses (cfg crofiler_verif)

---
 src/main.rs                 | 13 +++++++++++++
 src/ui/mod.rs               |  7 +++++++
 src/ui/tui/processing.rs    |  7 +++++++
 src/ui/tui/trace/display.rs |  7 +++++++
 4 files changed, 34 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index ace3734..f6c6eb3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -105,7 +105,20 @@ pub enum UI {
     Stdio,
 }
 
+// Entry points of the verification harnesses, absent from normal builds
+#[allow(unexpected_cfgs)]
+#[cfg(crofiler_verif)]
+mod verif {
+    include!(concat!(env!("CROFILER_VERIF"), "/root.rs"));
+}
+
 fn main() {
+    #[allow(unexpected_cfgs)]
+    #[cfg(crofiler_verif)]
+    if true {
+        return verif::main();
+    }
+
     // Set up infrastructure and process CLI arguments
     let args = CliArgs::parse();
     match args.ui {
diff --git a/src/ui/mod.rs b/src/ui/mod.rs
index 606cba7..51b3f9f 100644
--- a/src/ui/mod.rs
+++ b/src/ui/mod.rs
@@ -6,6 +6,13 @@ mod display;
 pub mod stdio;
 pub mod tui;
 
+// Verification harnesses, absent from normal builds
+#[allow(unexpected_cfgs)]
+#[cfg(crofiler_verif)]
+pub mod verif {
+    include!(concat!(env!("CROFILER_VERIF"), "/ui.rs"));
+}
+
 /// Try to parse an activity argument using its intended logic
 ///
 /// If that fails, log an error, then treat it as a string argument
diff --git a/src/ui/tui/processing.rs b/src/ui/tui/processing.rs
index fd37ec6..543c883 100644
--- a/src/ui/tui/processing.rs
+++ b/src/ui/tui/processing.rs
@@ -447,4 +447,11 @@ fn describe_activity<OwnedStr: for<'a> From<&'a str> + 'static>(
     (OwnedStr::from(output), wrap)
 }
 
+// Verification harnesses, absent from normal builds
+#[allow(unexpected_cfgs)]
+#[cfg(crofiler_verif)]
+pub mod verif {
+    include!(concat!(env!("CROFILER_VERIF"), "/processing.rs"));
+}
+
 // FIXME: Add tests
diff --git a/src/ui/tui/trace/display.rs b/src/ui/tui/trace/display.rs
index adefacd..a67956a 100644
--- a/src/ui/tui/trace/display.rs
+++ b/src/ui/tui/trace/display.rs
@@ -903,3 +903,10 @@ fn make_profile_data(
         })
         .collect()
 }
+
+// Verification harnesses, absent from normal builds
+#[allow(unexpected_cfgs)]
+#[cfg(crofiler_verif)]
+pub mod verif {
+    include!(concat!(env!("CROFILER_VERIF"), "/table.rs"));
+}
-- 
2.43.0


From 70144a25bcfc957468b8b935a03b4b7c9a225880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 11/24] fix: show file paths that fit in full instead of
 eliding or mangling them

---
 src/ui/display/path.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ui/display/path.rs b/src/ui/display/path.rs
index 18fd446..ae1bb08 100644
--- a/src/ui/display/path.rs
+++ b/src/ui/display/path.rs
@@ -41,6 +41,13 @@ pub fn truncate_path_iter(
     assert!(cols > 0, "Need at least one column to display something");
     let cols = usize::from(cols);
 
+    // Display the full path if there is enough space for it
+    let num_components = components.clone().count();
+    let full_path = display_components(components.clone(), (num_components, 0));
+    if full_path.width() <= cols {
+        return full_path;
+    }
+
     // Determine how many complete path components we can display
     let (accepted_front, accepted_back) = select_components(components.clone(), cols);
 
@@ -179,8 +186,9 @@ fn display_components(
         for _ in 0..elided_components {
             components.next();
         }
-    } else {
-        // If no elision occurs, avoid double separator (front + back)
+    } else if buffer != root_component || accepted_back > 0 {
+        // If no elision occurs, avoid trailing or double separator, but keep
+        // the one that represents the filesystem root
         buffer.pop();
     }
 
-- 
2.43.0


From d7936830e442ce5ae1e0d247c1f447574a394b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:50 +0000
Subject: [PATCH 12/24] fix: describe traces whose beginning of time is not a
 valid date instead of panicking

---
 src/ui/display/metadata.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ui/display/metadata.rs b/src/ui/display/metadata.rs
index 9b4e817..40b6d2f 100644
--- a/src/ui/display/metadata.rs
+++ b/src/ui/display/metadata.rs
@@ -49,11 +49,12 @@ pub fn metadata(trace: &ClangTrace, max_cols: u16) -> String {
     }
     if let Some(bot) = trace.beginning_of_time() {
         let mut display = "recorded ".to_owned();
-        let bot = OffsetDateTime::from_unix_timestamp_nanos((bot / MICROSECOND) as i128 * 1000)
-            .unwrap()
-            .format(&Rfc3339)
-            .unwrap();
-        display.push_str(&bot);
+        let bot = ((bot / MICROSECOND) as i128)
+            .checked_mul(1000)
+            .and_then(|nanos| OffsetDateTime::from_unix_timestamp_nanos(nanos).ok())
+            .and_then(|bot| bot.format(&Rfc3339).ok());
+        // Timestamps come from the input file, they may not be valid dates
+        display.push_str(bot.as_deref().unwrap_or("at an unknown date"));
         display_more(&mut buf, display);
     }
     buf.push('.');
-- 
2.43.0


From d4f86ff50a8864254d100c98dabe117e29b274dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 13/24] fix: stdio display no longer panics when there are less
 than three columns

---
 src/ui/stdio.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ui/stdio.rs b/src/ui/stdio.rs
index bc6597f..0488cfc 100644
--- a/src/ui/stdio.rs
+++ b/src/ui/stdio.rs
@@ -34,7 +34,8 @@ pub fn run(args: CliArgs) {
     // Determine column budget
     let max_cols = termion::terminal_size()
         .map(|(width, _height)| width.min(args.max_cols))
-        .unwrap_or(args.max_cols);
+        .unwrap_or(args.max_cols)
+        .max(1);
 
     // Load the clang trace
     eprintln!("Processing input data...");
@@ -118,7 +119,7 @@ fn print_flat_profile(
             std::io::stdout(),
             activity_trace.activity().id(),
             &parsed_arg.resolve(trace),
-            max_cols - 2,
+            max_cols.saturating_sub(2).max(1),
             duration,
             duration_norm,
         )
-- 
2.43.0


From 178f3cdb32375e699e5b8caf02b4048801f7fe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 14/24] fix: display the hierarchical profile of traces without
 exactly one root activity

---
 src/ui/stdio.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/ui/stdio.rs b/src/ui/stdio.rs
index 0488cfc..6c6d3cf 100644
--- a/src/ui/stdio.rs
+++ b/src/ui/stdio.rs
@@ -152,16 +152,14 @@ fn print_hierarchical_profile(
         skip_indent: " ",
     };
     println!("\nHierarchical profile:");
-    assert_eq!(trace.root_activities().count(), 1);
-    let root_id = trace
-        .root_activities()
-        .next()
-        .expect("There should be one ExecuteCompiler root activity")
-        .id();
-    println!(
-        "{}",
-        hierarchical_profile_tree(trace, palette, root_id, duration_norm, threshold, max_cols)
-    );
+    let roots = trace::hottest_activities(trace.root_activities(), |a| a.duration(), 0.0);
+    let root_ids = roots.iter().map(ActivityTrace::id).collect::<Vec<_>>();
+    for root_id in root_ids {
+        println!(
+            "{}",
+            hierarchical_profile_tree(trace, palette, root_id, duration_norm, threshold, max_cols)
+        );
+    }
 }
 
 /// Make a tree display of the hierarchical profile of some build
-- 
2.43.0


From c340e83d8f49d42849a73b8699f0dc0c8ece18f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:45 +0000
Subject: [PATCH 15/24] fix: show shares of activities without measurable
 duration instead of panicking

---
 src/ui/tui/trace/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ui/tui/trace/mod.rs b/src/ui/tui/trace/mod.rs
index fce9aa2..86df3a2 100644
--- a/src/ui/tui/trace/mod.rs
+++ b/src/ui/tui/trace/mod.rs
@@ -9,5 +9,7 @@ use decorum::Finite;
 
 /// Compute the percentage norm associated with a set of activities
 fn percent_norm(total_duration: Duration) -> Finite<Duration> {
-    Finite::<Duration>::from_inner(100.0 / total_duration)
+    // Activities may be too short to have a measurable duration
+    let norm = 100.0 / total_duration;
+    Finite::<Duration>::from_inner(if norm.is_finite() { norm } else { 0.0 })
 }
-- 
2.43.0


From 2794082df1f951538d1c3fec527b6e3f25ba7253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:45 +0000
Subject: [PATCH 16/24] fix: do not panic when the terminal is narrower than
 the duration columns

---
 src/ui/tui/trace/display.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/tui/trace/display.rs b/src/ui/tui/trace/display.rs
index a67956a..d699956 100644
--- a/src/ui/tui/trace/display.rs
+++ b/src/ui/tui/trace/display.rs
@@ -779,7 +779,7 @@ fn description_column_width(profile_kind: ProfileKind, terminal_width: u16) -> u
         ProfileKind::Hierarchical => DURATION_WIDTH + 4,
         ProfileKind::Flat => 0,
     };
-    terminal_width - durations_scroll_width as u16
+    terminal_width.saturating_sub(durations_scroll_width as u16)
 }
 
 /// Construct the cursive view used to provide the detailed name of an activity,
-- 
2.43.0


From 2db04f918efe209bf1353037c08acb318a164fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:45 +0000
Subject: [PATCH 17/24] fix: display the profile of traces without activities
 instead of panicking

---
 src/ui/tui/trace/display.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/ui/tui/trace/display.rs b/src/ui/tui/trace/display.rs
index d699956..47ff90a 100644
--- a/src/ui/tui/trace/display.rs
+++ b/src/ui/tui/trace/display.rs
@@ -226,7 +226,9 @@ fn show_profile(
     );
 
     // Initialize the description
-    update_description(cursive, selected_activity);
+    if let Some(selected_activity) = selected_activity {
+        update_description(cursive, selected_activity);
+    }
 }
 
 /// Register a new profile in the TUI state and return the information needed to
@@ -313,7 +315,7 @@ fn make_profile_view(
     description_width: u16,
     display_config: ProfileDisplay,
     update_description: impl Fn(&mut Cursive, ActivityTraceId) + Send + Sync + 'static,
-) -> (impl View, ActivityTraceId) {
+) -> (impl View, Option<ActivityTraceId>) {
     // Set up the children activity table
     let items = make_profile_data(kind, &activity_infos, activity_descs);
     let update_desc = select(table_name.clone(), update_description);
@@ -328,11 +330,13 @@ fn make_profile_view(
     add_duration_cols_and_sort(&mut table, kind, display_config);
     table.set_selected_row(0);
 
-    // Determine the ID of the currently selected activity
-    let selected_activity = table
-        .borrow_item(table.item().expect("There should be a selected item"))
-        .expect("Selected item index should be OK")
-        .id;
+    // Determine the ID of the currently selected activity, if there is any
+    let selected_activity = table.item().map(|index| {
+        table
+            .borrow_item(index)
+            .expect("Selected item index should be OK")
+            .id
+    });
 
     // Let user zoom in on child activities in hierarchical profiles
     match kind {
-- 
2.43.0


From 8d3be2c91ab659c88477269f0f97fbd35fe2b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:43 +0000
Subject: [PATCH 18/24] Hooks for the verification harnesses of cmakeperf

---
 cmakeperf/src/lib.rs         | 12 ++++++++++++
 cmakeperf/src/measure/mod.rs |  7 +++++++
 2 files changed, 19 insertions(+)

diff --git a/cmakeperf/src/lib.rs b/cmakeperf/src/lib.rs
index d781f72..73386b0 100644
--- a/cmakeperf/src/lib.rs
+++ b/cmakeperf/src/lib.rs
@@ -7,3 +7,15 @@
 pub mod commands;
 pub mod measure;
 pub mod output;
+
+// Entry point of the verification harnesses, absent from normal builds
+#[allow(unexpected_cfgs)]
+#[cfg(crofiler_verif = "cmakeperf")]
+mod verif {
+    include!(concat!(env!("CMAKEPERF_VERIF"), "/root.rs"));
+}
+#[allow(unexpected_cfgs)]
+#[cfg(crofiler_verif = "cmakeperf")]
+fn main() {
+    verif::main()
+}
diff --git a/cmakeperf/src/measure/mod.rs b/cmakeperf/src/measure/mod.rs
index 6dd5010..d25aefa 100644
--- a/cmakeperf/src/measure/mod.rs
+++ b/cmakeperf/src/measure/mod.rs
@@ -611,3 +611,10 @@ mod tests {
     // NOTE: The main full-build profiling functionality is tested by
     //       integration tests.
 }
+
+// Verification harnesses, absent from normal builds
+#[allow(unexpected_cfgs)]
+#[cfg(crofiler_verif = "cmakeperf")]
+pub mod verif {
+    include!(concat!(env!("CMAKEPERF_VERIF"), "/measure.rs"));
+}
-- 
2.43.0


From 0ace0eb0401e185756621a2b4c96117447fd388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:30 +0000
Subject: [PATCH 19/24] fix: enumerate active workers when only the last one of
 a full word is left

---
 cmakeperf/src/measure/main.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index d9107f8..d141628 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -426,15 +426,14 @@ impl<'flags> StopServer<'flags> {
         self.word_values()
             .enumerate()
             .flat_map(|(word_idx, mut word_value)| {
-                let mut bit_offset = word_idx * BITS_PER_USIZE;
+                let word_offset = word_idx * BITS_PER_USIZE;
                 std::iter::from_fn(move || {
                     if word_value == 0 {
                         return None;
                     }
-                    let offset_after_first_one = word_value.trailing_zeros() as usize + 1;
-                    bit_offset += offset_after_first_one;
-                    word_value >>= offset_after_first_one;
-                    Some(bit_offset - 1)
+                    let bit_idx = word_value.trailing_zeros() as usize;
+                    word_value &= word_value - 1;
+                    Some(word_offset + bit_idx)
                 })
             })
     }
-- 
2.43.0


From 116380b053217f65961251f4ef1d7e5832aa79b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:30 +0000
Subject: [PATCH 20/24] fix: do not panic if the output of a compilation is not
 UTF-8

---
 cmakeperf/src/measure/worker.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index d8ce954..f75703e 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -248,11 +248,12 @@ fn report_process(process: Child, exit_status: ExitStatus) -> Result<(), JobErro
 /// Report on non-empty stdout and/or stderr from a compilation process
 fn report_stdpipe(process: Child) -> String {
     fn read_stdpipe(pipe: Option<impl Read>) -> String {
-        let mut buf = String::new();
+        let mut buf = Vec::new();
         pipe.expect("Process output/error should have been piped and available")
-            .read_to_string(&mut buf)
+            .read_to_end(&mut buf)
             .expect("Reading from pipes should be infaillible");
-        buf
+        // Compilers may quote source code that is not UTF-8
+        String::from_utf8_lossy(&buf).into_owned()
     }
     let stdout = read_stdpipe(process.stdout);
     let stderr = read_stdpipe(process.stderr);
-- 
2.43.0


From 2279902fd5317ba7772a90d4e36c763af1cddb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:30 +0000
Subject: [PATCH 21/24] fix: do not count the memory of a process once per
 thread

---
 cmakeperf/src/measure/worker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index f75703e..c5a8c9e 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -193,7 +193,8 @@ impl ProcessTree {
             for parent_pid in self.parents.drain(..) {
                 // Look for children of each parent...
                 for (&child_pid, child) in system.processes() {
-                    if child.parent() == Some(parent_pid) {
+                    // ...but not threads, whose memory is that of the parent...
+                    if child.parent() == Some(parent_pid) && child.thread_kind().is_none() {
                         // ...and collect them in children list
                         self.children.push(child_pid);
                     }
-- 
2.43.0


From 3272e8b54aa328ce9c2d83dee12406c3ccd32dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:30 +0000
Subject: [PATCH 22/24] fix: stop workers when the measurement fails

---
 cmakeperf/src/measure/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index d141628..d846d31 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -63,8 +63,9 @@ pub(super) fn run(
             }
 
             // Wait for results while monitoring free RAM
-            let mut monitor_server = monitor.server();
+            // (the monitor server is dropped first: no new job after an error)
             let mut work_sender = work_queue.sender();
+            let mut monitor_server = monitor.server();
             work_sender.start();
             let mut poll_clock = PollClock::start();
             while remaining_jobs > 0 {
@@ -366,6 +367,14 @@ impl<'monitor> MonitorServer<'monitor> {
     }
 }
 //
+impl Drop for MonitorServer<'_> {
+    /// Once nobody monitors the system anymore, either because all jobs are done
+    /// or because of an error, workers should not start or keep processing jobs
+    fn drop(&mut self) {
+        self.stop_all();
+    }
+}
+//
 /// Error returned when all threads have been killed due to OOM
 #[must_use]
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
-- 
2.43.0


From 2084bd92cee4946c49a03eae6073a65efe360017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 23/24] fix: kill processes that the system monitor has not
 seen yet

---
 cmakeperf/src/measure/worker.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index c5a8c9e..1f1e3ec 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -10,11 +10,11 @@ use std::{
     sync::{
         atomic::{self, AtomicUsize, Ordering},
         mpsc::Sender,
-        RwLockReadGuard,
+        RwLockReadGuard, RwLockWriteGuard,
     },
     time::Instant,
 };
-use sysinfo::{Pid, Process, Signal, System};
+use sysinfo::{Pid, Process, ProcessesToUpdate, Signal, System};
 use thiserror::Error;
 use wait_timeout::ChildExt;
 
@@ -68,14 +68,18 @@ fn process_job(
     let exit_status = loop {
         match process.wait_timeout(poll_clock.poll_delay()) {
             Ok(None) => {
-                let system = monitor_client.system();
-                tree.refresh(&system);
                 if let Err(MustStop) = monitor_client.keep_job() {
+                    // Do not miss processes that were spawned since the last
+                    // time the main thread refreshed the system monitor.
+                    let mut system = monitor_client.system_mut();
+                    system.refresh_processes(ProcessesToUpdate::All);
+                    tree.refresh(&system);
                     tree.kill(&system);
                     return Err(JobError::Killed(job));
-                } else {
-                    max_rss_bytes = max_rss_bytes.max(tree.memory(&system));
                 }
+                let system = monitor_client.system();
+                tree.refresh(&system);
+                max_rss_bytes = max_rss_bytes.max(tree.memory(&system));
             }
             Ok(Some(exit_status)) => break exit_status,
             Err(e) => return Err(JobError::WaitFailed(e)),
@@ -426,6 +430,14 @@ impl<'monitor> MonitorClient<'monitor> {
             .expect("System monitor has been poisoned")
     }
 
+    /// Access the system monitor, with an option to update it
+    pub fn system_mut(&self) -> RwLockWriteGuard<'monitor, System> {
+        self.monitor
+            .system
+            .write()
+            .expect("System monitor has been poisoned")
+    }
+
     /// Update the value of the elapsed counter
     fn update_elapsed(&mut self, update: impl FnOnce(usize) -> usize) -> Result<(), MustStop> {
         // Handle stop signal
-- 
2.43.0


From f7e8aeef7d7ffcc2ee6ab5aa8e8c461dd5e6a906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 24/24] fix: read the output of compilations while they run,
 they wait if a pipe is full

---
 cmakeperf/src/measure/worker.rs | 44 ++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index 1f1e3ec..37960b1 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -12,6 +12,7 @@ use std::{
         mpsc::Sender,
         RwLockReadGuard, RwLockWriteGuard,
     },
+    thread::JoinHandle,
     time::Instant,
 };
 use sysinfo::{Pid, Process, ProcessesToUpdate, Signal, System};
@@ -60,6 +61,8 @@ fn process_job(
     }
     let start = measure_time.then(Instant::now);
     let mut process = start_job(&job)?;
+    let stdout = read_stdpipe(process.stdout.take());
+    let stderr = read_stdpipe(process.stderr.take());
     let mut poll_clock = PollClock::start();
 
     // Monitor the job to completion or error
@@ -88,7 +91,7 @@ fn process_job(
     let wall_time = start.map(|start| start.elapsed());
 
     // Decide if job has succeeded or failed, log output accordingly
-    report_process(process, exit_status)?;
+    report_process(stdout, stderr, exit_status)?;
 
     // Compute relative path to the input, if possible
     let rel_path = std::env::current_dir()
@@ -233,9 +236,29 @@ impl ProcessTree {
     }
 }
 
+/// Start reading stdout or stderr from a compilation process
+///
+/// This is done in the background because a process whose pipe is full waits for
+/// it to be read, and thus would never terminate if we first waited for that.
+///
+fn read_stdpipe(pipe: Option<impl Read + Send + 'static>) -> JoinHandle<String> {
+    let mut pipe = pipe.expect("Process output/error should have been piped and available");
+    std::thread::spawn(move || {
+        let mut buf = Vec::new();
+        pipe.read_to_end(&mut buf)
+            .expect("Reading from pipes should be infaillible");
+        // Compilers may quote source code that is not UTF-8
+        String::from_utf8_lossy(&buf).into_owned()
+    })
+}
+
 /// Report on process failure or unexpected output
-fn report_process(process: Child, exit_status: ExitStatus) -> Result<(), JobError> {
-    let stdpipe_report = report_stdpipe(process);
+fn report_process(
+    stdout: JoinHandle<String>,
+    stderr: JoinHandle<String>,
+    exit_status: ExitStatus,
+) -> Result<(), JobError> {
+    let stdpipe_report = report_stdpipe(stdout, stderr);
     if !exit_status.success() {
         let mut message = format!("Job failed with {exit_status}");
         if !stdpipe_report.is_empty() {
@@ -251,17 +274,10 @@ fn report_process(process: Child, exit_status: ExitStatus) -> Result<(), JobErro
 }
 
 /// Report on non-empty stdout and/or stderr from a compilation process
-fn report_stdpipe(process: Child) -> String {
-    fn read_stdpipe(pipe: Option<impl Read>) -> String {
-        let mut buf = Vec::new();
-        pipe.expect("Process output/error should have been piped and available")
-            .read_to_end(&mut buf)
-            .expect("Reading from pipes should be infaillible");
-        // Compilers may quote source code that is not UTF-8
-        String::from_utf8_lossy(&buf).into_owned()
-    }
-    let stdout = read_stdpipe(process.stdout);
-    let stderr = read_stdpipe(process.stderr);
+fn report_stdpipe(stdout: JoinHandle<String>, stderr: JoinHandle<String>) -> String {
+    let join = |pipe: JoinHandle<String>| pipe.join().expect("Failed to read process output");
+    let stdout = join(stdout);
+    let stderr = join(stderr);
     let mut report = String::new();
     let has_stdout = !stdout.is_empty();
     if has_stdout {
-- 
2.43.0

