From c89420d16fc5925af7a74668b3c509ddf14c58e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:43 +0000
Subject: [PATCH 01/16] fix: cargo check takes --profile, not nextest's
 --cargo-profile

---
 src/cargo.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cargo.rs b/src/cargo.rs
index a1db2ac..856d167 100644
--- a/src/cargo.rs
+++ b/src/cargo.rs
@@ -125,11 +125,13 @@ fn cargo_argv(packages: &PackageSelection, phase: Phase, options: &Options) -> V
         }
     }
     if let Some(profile) = &options.profile {
-        match options.test_tool {
-            TestTool::Cargo => {
+        // `--cargo-profile` is spelled that way only by nextest: the check phase always
+        // runs plain `cargo check`.
+        match (&options.test_tool, phase) {
+            (TestTool::Cargo, _) | (_, Phase::Check) => {
                 cargo_args.push(format!("--profile={profile}"));
             }
-            TestTool::Nextest => {
+            (TestTool::Nextest, _) => {
                 cargo_args.push(format!("--cargo-profile={profile}"));
             }
         }
-- 
2.43.0


From fdc25093ed1c46e9691f23805f8099f7279898bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:05 +0000
Subject: [PATCH 02/16] fix: don't write mutations through symlinks out of the
 build directory

A source file that is (or is under) a symlink with an absolute target is
still that symlink in the copied tree, and is_file() follows it, so the
original file was mutated.
---
 src/build_dir.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/build_dir.rs b/src/build_dir.rs
index 2df19e9..2136fb5 100644
--- a/src/build_dir.rs
+++ b/src/build_dir.rs
@@ -92,8 +92,20 @@ impl BuildDir {
 
     pub fn overwrite_file(&self, relative_path: &Utf8Path, code: &str) -> Result<()> {
         let full_path = self.path.join(relative_path);
-        // for safety, don't follow symlinks
         ensure!(full_path.is_file(), "{full_path:?} is not a file");
+        // for safety, don't follow symlinks out of the build directory, to files that might be
+        // in the original source tree
+        let real_path = full_path
+            .canonicalize_utf8()
+            .with_context(|| format!("failed to canonicalize {full_path:?}"))?;
+        let real_dir = self
+            .path
+            .canonicalize_utf8()
+            .with_context(|| format!("failed to canonicalize {:?}", self.path))?;
+        ensure!(
+            real_path.starts_with(&real_dir),
+            "{full_path:?} is outside of the build directory, at {real_path:?}"
+        );
         write(&full_path, code.as_bytes())
             .with_context(|| format!("failed to write code to {full_path:?}"))
     }
-- 
2.43.0


From 881c80d3c27fce4f191c2924e1bdd61f63cb9bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:20 +0000
Subject: [PATCH 03/16] fix: honour mutants::skip in every form of cfg_attr

The documentation says that attributes containing mutants::skip are honoured,
but cfg_attr with a condition such as any(...) or feature = "...", or with
other attributes beside mutants::skip, was not recognised.
---
 src/visit.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/visit.rs b/src/visit.rs
index 174ccc5..346afad 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -17,9 +17,12 @@ use camino::{Utf8Path, Utf8PathBuf};
 use proc_macro2::{Ident, TokenStream};
 use quote::{quote, ToTokens};
 use syn::ext::IdentExt;
+use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
 use syn::visit::Visit;
-use syn::{Attribute, BinOp, Block, Expr, ExprPath, File, ItemFn, ReturnType, Signature, UnOp};
+use syn::{
+    Attribute, BinOp, Block, Expr, ExprPath, File, ItemFn, Meta, ReturnType, Signature, Token, UnOp,
+};
 use tracing::{debug, debug_span, error, info, trace, trace_span, warn};
 
 use crate::console::WalkProgress;
@@ -814,21 +817,21 @@ fn attr_is_mutants_skip(attr: &Attribute) -> bool {
     if !path_is(attr.path(), &["cfg_attr"]) {
         return false;
     }
-    let mut skip = false;
-    if let Err(err) = attr.parse_nested_meta(|meta| {
-        if path_is(&meta.path, &["mutants", "skip"]) {
-            skip = true;
+    // Parse the arguments as whole meta items so that conditions like `feature = "foo"` or
+    // `any(...)`, and other attributes, don't hide a `mutants::skip`.
+    match attr.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated) {
+        Ok(metas) => metas
+            .iter()
+            .any(|meta| path_is(meta.path(), &["mutants", "skip"])),
+        Err(err) => {
+            debug!(
+                ?attr,
+                ?err,
+                "Attribute is not a path with attributes; skipping"
+            );
+            false
         }
-        Ok(())
-    }) {
-        debug!(
-            ?attr,
-            ?err,
-            "Attribute is not a path with attributes; skipping"
-        );
-        return false;
     }
-    skip
 }
 
 /// Finds the first path attribute (`#[path = "..."]`)
-- 
2.43.0


From 2c7f4452e0bacdfde1960dad02380ef10aa48c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:10 +0000
Subject: [PATCH 04/16] fix: --in-diff matches deletions in diffs without
 context lines

A hunk from which no lines remain starts at the line before it, so the wrong
line was taken as affected and the line after the deletion was not matched.
---
 src/in_diff.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/in_diff.rs b/src/in_diff.rs
index 2b103af..14f7ef8 100644
--- a/src/in_diff.rs
+++ b/src/in_diff.rs
@@ -134,6 +134,11 @@ fn affected_lines(patch: &Patch) -> Vec<usize> {
     let mut affected_lines = Vec::new();
     for hunk in &patch.hunks {
         let mut lineno: usize = hunk.new_range.start.try_into().unwrap();
+        if hunk.new_range.count == 0 {
+            // If nothing remains of the hunk, as in a diff without context lines, the range
+            // starts at the line before it.
+            lineno += 1;
+        }
         // True if the previous line was deleted. If set, then the next line that exists in the
         // new file, if there is one, will be marked as affected.
         let mut prev_removed = false;
@@ -175,6 +180,9 @@ fn affected_lines(patch: &Patch) -> Vec<usize> {
                 }
             }
         }
+        if prev_removed && hunk.new_range.count == 0 {
+            affected_lines.push(lineno);
+        }
     }
     debug_assert!(
         affected_lines.iter().tuple_windows().all(|(a, b)| a < b),
-- 
2.43.0


From 6e72efd67b973937829c2cfb41a83caa01feacd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:10 +0000
Subject: [PATCH 05/16] fix: count a carriage return that is not part of a line
 ending as a column

The parser counts it, so mutations after it on the same line were put in the
wrong place.
---
 src/span.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 6f12fe0..40083f2 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -71,7 +71,8 @@ impl Span {
         let mut col_no = 1;
         let start = self.start;
         let end = self.end;
-        for c in s.chars() {
+        let mut chars = s.chars().peekable();
+        while let Some(c) = chars.next() {
             if ((line_no == start.line && col_no >= start.column) || line_no > start.line)
                 && (line_no < end.line || (line_no == end.line && col_no < end.column))
             {
@@ -83,7 +84,7 @@ impl Span {
                     break;
                 }
                 col_no = 1;
-            } else if c == '\r' {
+            } else if c == '\r' && chars.peek() == Some(&'\n') {
                 // counts as part of the last column, not a separate column
             } else {
                 col_no += 1;
@@ -105,7 +106,8 @@ impl Span {
         let mut col_no = 1;
         let start = self.start;
         let end = self.end;
-        for c in s.chars() {
+        let mut chars = s.chars().peekable();
+        while let Some(c) = chars.next() {
             if line_no == start.line && col_no == start.column {
                 r.push_str(replacement);
             }
@@ -119,7 +121,7 @@ impl Span {
             if c == '\n' {
                 line_no += 1;
                 col_no = 1;
-            } else if c == '\r' {
+            } else if c == '\r' && chars.peek() == Some(&'\n') {
                 // counts as part of the last column, not a separate column
             } else {
                 col_no += 1;
-- 
2.43.0


From 7fcd409566b3036b91c22cd9f6a6c7280eba585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:42 +0000
Subject: [PATCH 06/16] fix: visit each source file only once

A module declared in several targets of a package, such as lib.rs and main.rs,
was visited for each of them and its mutants were listed and tested repeatedly.
---
 src/visit.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/visit.rs b/src/visit.rs
index 346afad..7fa4e74 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -9,7 +9,7 @@
 
 #![warn(clippy::pedantic)]
 
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 use std::sync::Arc;
 use std::vec;
 
@@ -95,7 +95,12 @@ fn walk_package(
     let mut files = Vec::new();
     let mut filename_queue =
         VecDeque::from_iter(package.top_sources.iter().map(|p| (p.to_owned(), true)));
+    let mut visited = HashSet::new();
     while let Some((path, package_top)) = filename_queue.pop_front() {
+        if !visited.insert(path.clone()) {
+            // The same file can be a module of several targets, for example `lib.rs` and `main.rs`.
+            continue;
+        }
         let Some(source_file) = SourceFile::load(workspace_dir, &path, package, package_top)?
         else {
             info!("Skipping source file outside of tree: {path:?}");
-- 
2.43.0


From 2493fc0c7e214cae46ceb7e344711d93b69f9463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:47 +0000
Subject: [PATCH 07/16] fix: a path attribute on an enclosing mod block ignores
 the parent module's name

---
 src/visit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/visit.rs b/src/visit.rs
index 7fa4e74..27b0558 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -708,8 +708,8 @@ fn find_mod_source(
     let mut search_dir = if parent.is_top
         || parent_path.ends_with("mod.rs")
         // NOTE: Path attribute on a top-level `mod foo;` (no enclosing block)
-        //       ignores the parent module path
-        || (mod_child.path_attribute.is_some() && mod_parents.is_empty())
+        //       or on the outermost enclosing block ignores the parent module path
+        || mod_namespace.parts[0].path_attribute.is_some()
     {
         parent_path
             .parent()
-- 
2.43.0


From 90c4333487d011644bdecc0426be832db2e2c701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:51 +0000
Subject: [PATCH 08/16] fix: find the modules of a file named by a path
 attribute next to it

---
 src/source.rs | 3 ++-
 src/visit.rs  | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/source.rs b/src/source.rs
index 9dc353e..3491787 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -37,7 +37,8 @@ pub struct SourceFile {
     pub code: Arc<String>,
 
     /// True if this is the top source file for its target: typically but
-    /// not always `lib.rs` or `main.rs`.
+    /// not always `lib.rs` or `main.rs`; or a file named by a `#[path]` attribute. The
+    /// modules that it declares are then in the same directory.
     pub is_top: bool,
 }
 
diff --git a/src/visit.rs b/src/visit.rs
index 27b0558..c1892d5 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -123,7 +123,12 @@ fn walk_package(
         // `--list-files`.
         for mod_namespace in &external_mods {
             if let Some(mod_path) = find_mod_source(workspace_dir, &source_file, mod_namespace) {
-                filename_queue.push_back((mod_path, false));
+                // A file named by a path attribute has its own modules next to it, like a top file.
+                let by_path_attribute = mod_namespace
+                    .parts
+                    .last()
+                    .is_some_and(|part| part.path_attribute.is_some());
+                filename_queue.push_back((mod_path, by_path_attribute));
             }
         }
         if !options.allows_source_file_path(&source_file.tree_relative_path) {
-- 
2.43.0


From cdc00fac5644feaf8e44f5ca22756ac203749199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:57 +0000
Subject: [PATCH 09/16] fix: mutate each package once even if it is named twice

---
 src/workspace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/workspace.rs b/src/workspace.rs
index 97872dc..46c40fe 100644
--- a/src/workspace.rs
+++ b/src/workspace.rs
@@ -117,6 +117,7 @@ impl Workspace {
             .iter()
             .map(AsRef::as_ref)
             .sorted()
+            .dedup() // in case a package is named twice
             .filter_map(|name| {
                 if let Some(p) = self.packages.iter().find(|p| p.name == name) {
                     Some(Arc::clone(p))
-- 
2.43.0


From 8013f1362b75652ab7165f6e0997dc0e00723e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:23 +0000
Subject: [PATCH 10/16] fix: accept --manifest-path without a directory

---
 src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ab3b4e1..0cdf0ed 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -450,9 +450,14 @@ fn main() -> Result<()> {
 
     let start_dir: &Utf8Path = if let Some(manifest_path) = &args.manifest_path {
         ensure!(manifest_path.is_file(), "Manifest path is not a file");
-        manifest_path
+        let parent = manifest_path
             .parent()
-            .ok_or(anyhow!("Manifest path has no parent"))?
+            .ok_or(anyhow!("Manifest path has no parent"))?;
+        if parent.as_str().is_empty() {
+            Utf8Path::new(".") // just `Cargo.toml`
+        } else {
+            parent
+        }
     } else if let Some(dir) = &args.dir {
         dir
     } else {
-- 
2.43.0


From 7dd9143a72295aaadaada3cb84403c3ee192b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:40 +0000
Subject: [PATCH 11/16] fix: keep dev, build, target and workspace path
 dependencies working in the copied tree

---
 src/manifest.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index 5089420..ee7bf31 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -43,7 +43,20 @@ fn fix_manifest_toml(
     let mut value: toml::Value = manifest_toml.parse().context("parse manifest")?;
     let orig_value = value.clone();
     if let Some(top_table) = value.as_table_mut() {
-        if let Some(dependencies) = top_table.get_mut("dependencies") {
+        fix_dependency_sections(top_table, manifest_source_dir);
+        if let Some(targets) = top_table.get_mut("target").and_then(|t| t.as_table_mut()) {
+            // Platform-specific dependencies, by target name or cfg expression.
+            // <https://doc.rust-lang.org/cargo/reference/specifying-dependencies.html#platform-specific-dependencies>
+            for (_name, target) in targets.iter_mut() {
+                if let Some(target_table) = target.as_table_mut() {
+                    fix_dependency_sections(target_table, manifest_source_dir);
+                }
+            }
+        }
+        if let Some(dependencies) = top_table
+            .get_mut("workspace")
+            .and_then(|w| w.get_mut("dependencies"))
+        {
             fix_dependency_table(dependencies, manifest_source_dir);
         }
         if let Some(replace) = top_table.get_mut("replace") {
@@ -69,6 +82,15 @@ fn fix_manifest_toml(
     }
 }
 
+/// Fix up paths in the normal, dev, and build dependencies of a package or of a target.
+fn fix_dependency_sections(table: &mut toml::Table, manifest_source_dir: &Utf8Path) {
+    for section in ["dependencies", "dev-dependencies", "build-dependencies"] {
+        if let Some(dependencies) = table.get_mut(section) {
+            fix_dependency_table(dependencies, manifest_source_dir);
+        }
+    }
+}
+
 /// Fix up paths in a manifest "dependency table".
 ///
 /// This is a pattern that can occur at various places in the manifest. It's a
-- 
2.43.0


From 8c14a6ff4d716b3fc78ef23ec9e29c1ec914ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:57 +0000
Subject: [PATCH 12/16] fix: run the baseline with the tests that will be run
 on mutants

With --test-workspace or --test-package the baseline still tested only the
mutated packages, so that tests failing in the unmutated tree were not noticed
and every mutant was reported as caught.
---
 src/lab.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/lab.rs b/src/lab.rs
index 793ce02..9416efa 100644
--- a/src/lab.rs
+++ b/src/lab.rs
@@ -174,15 +174,23 @@ impl Lab<'_> {
     ///
     /// If it succeeds, return the timeouts to be used for the other scenarios.
     fn run_baseline(&self, build_dir: &BuildDir, mutants: &[Mutant]) -> Result<ScenarioOutcome> {
-        let all_mutated_packages: Vec<Arc<Package>> = mutants
-            .iter()
-            .map(|m| Arc::clone(&m.source_file.package))
-            .sorted_by_key(|p| p.name.clone())
-            .unique()
-            .collect_vec();
+        // Run the same tests that will be run on the mutants: if some of them already fail in the
+        // unmutated tree, the results for mutants would be meaningless.
+        let test_packages = match &self.tests_for_mutant {
+            TestsForMutant::Workspace => PackageSelection::All,
+            TestsForMutant::Mutated => PackageSelection::Explicit(
+                mutants
+                    .iter()
+                    .map(|m| Arc::clone(&m.source_file.package))
+                    .sorted_by_key(|p| p.name.clone())
+                    .unique()
+                    .collect_vec(),
+            ),
+            TestsForMutant::Explicit(packages) => PackageSelection::Explicit(packages.clone()),
+        };
         self.make_worker(build_dir).run_one_scenario(
             &Scenario::Baseline,
-            &PackageSelection::Explicit(all_mutated_packages),
+            &test_packages,
             Timeouts::for_baseline(self.options),
         )
     }
-- 
2.43.0


From 6cb88d4cc3a4f352dcdbb7803b94e4ab3765fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:55 +0000
Subject: [PATCH 13/16] fix: don't panic if a log contains output that isn't
 UTF-8

---
 src/console.rs | 5 ++---
 src/outcome.rs | 6 ++++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/console.rs b/src/console.rs
index 2580549..a3ca474 100644
--- a/src/console.rs
+++ b/src/console.rs
@@ -109,10 +109,9 @@ impl Console {
         if outcome.should_show_logs() || options.show_all_logs {
             s.push('\n');
             s.push_str(
-                outcome
+                &outcome
                     .get_log_content()
-                    .expect("read log content")
-                    .as_str(),
+                    .unwrap_or_else(|err| format!("{err:#}")),
             );
         }
         s.push('\n');
diff --git a/src/outcome.rs b/src/outcome.rs
index 2d83ab4..fb8e7ad 100644
--- a/src/outcome.rs
+++ b/src/outcome.rs
@@ -3,7 +3,7 @@
 //! The outcome of running a single mutation scenario, or a whole lab.
 
 use std::fmt;
-use std::fs::read_to_string;
+use std::fs;
 use std::time::{Duration, Instant};
 
 use anyhow::Context;
@@ -190,7 +190,9 @@ impl ScenarioOutcome {
     }
 
     pub fn get_log_content(&self) -> Result<String> {
-        read_to_string(self.output_dir.join(&self.log_path)).context("read log file")
+        // Programs run by cargo can print anything, so it's not necessarily UTF-8.
+        let content = fs::read(self.output_dir.join(&self.log_path)).context("read log file")?;
+        Ok(String::from_utf8_lossy(&content).into_owned())
     }
 
     pub fn last_phase(&self) -> Phase {
-- 
2.43.0


From 14d2d83a92498c461fc0d7156358707ae2963c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:55 +0000
Subject: [PATCH 14/16] fix: report invalid timeouts and multipliers as errors
 rather than panicking

---
 src/options.rs  | 33 +++++++++++++++++++++++++--------
 src/timeouts.rs |  8 +++++---
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/options.rs b/src/options.rs
index 87821f4..5bc885f 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -15,6 +15,7 @@ use std::env;
 use std::ffi::OsString;
 use std::time::Duration;
 
+use anyhow::ensure;
 use camino::{Utf8Path, Utf8PathBuf};
 use globset::GlobSet;
 use regex::RegexSet;
@@ -235,11 +236,11 @@ impl Options {
             warn!("--no-copy-target is deprecated and has no effect; target/ is never copied");
         }
 
-        let minimum_test_timeout = Duration::from_secs_f64(
+        let minimum_test_timeout = duration_from_secs(
             args.minimum_test_timeout
                 .or(config.minimum_test_timeout)
                 .unwrap_or(20f64),
-        );
+        )?;
 
         // If either command line argument is set, it overrides the config.
         let test_package = if args.test_workspace == Some(true) {
@@ -282,10 +283,11 @@ impl Options {
                 &config.additional_cargo_test_args,
             ),
             baseline: args.baseline,
-            build_timeout: args.build_timeout.map(Duration::from_secs_f64),
-            build_timeout_multiplier: args
-                .build_timeout_multiplier
-                .or(config.build_timeout_multiplier),
+            build_timeout: args.build_timeout.map(duration_from_secs).transpose()?,
+            build_timeout_multiplier: checked_multiplier(
+                args.build_timeout_multiplier
+                    .or(config.build_timeout_multiplier),
+            )?,
             cap_lints: args.cap_lints.unwrap_or(config.cap_lints),
             check_only: args.check,
             colors: args.colors,
@@ -317,8 +319,10 @@ impl Options {
             show_all_logs: args.all_logs,
             skip_calls,
             test_package,
-            test_timeout: args.timeout.map(Duration::from_secs_f64),
-            test_timeout_multiplier: args.timeout_multiplier.or(config.timeout_multiplier),
+            test_timeout: args.timeout.map(duration_from_secs).transpose()?,
+            test_timeout_multiplier: checked_multiplier(
+                args.timeout_multiplier.or(config.timeout_multiplier),
+            )?,
             test_tool: args.test_tool.or(config.test_tool).unwrap_or_default(),
         };
         if let Some(jobs) = options.jobs {
@@ -398,6 +402,19 @@ impl Options {
     }
 }
 
+/// A timeout given as a number of seconds, which must not be negative or absurdly large.
+fn duration_from_secs(secs: f64) -> Result<Duration> {
+    Duration::try_from_secs_f64(secs).with_context(|| format!("Invalid timeout: {secs} seconds"))
+}
+
+/// A timeout multiplier, which must be finite and not negative.
+fn checked_multiplier(multiplier: Option<f64>) -> Result<Option<f64>> {
+    if let Some(m) = multiplier {
+        ensure!(m.is_finite() && m >= 0.0, "Invalid timeout multiplier: {m}");
+    }
+    Ok(multiplier)
+}
+
 /// If the first slices is non-empty, return that, otherwise the second.
 fn or_slices<'a: 'c, 'b: 'c, 'c, T>(a: &'a [T], b: &'b [T]) -> &'c [T] {
     if a.is_empty() {
diff --git a/src/timeouts.rs b/src/timeouts.rs
index 2d19144..b34191f 100644
--- a/src/timeouts.rs
+++ b/src/timeouts.rs
@@ -57,10 +57,11 @@ fn test_timeout(baseline_duration: Option<Duration>, options: &Options) -> Durat
     } else if let Some(baseline_duration) = baseline_duration {
         let timeout = max(
             options.minimum_test_timeout,
-            Duration::from_secs_f64(
+            Duration::try_from_secs_f64(
                 (baseline_duration.as_secs_f64() * options.test_timeout_multiplier.unwrap_or(5.0))
                     .ceil(),
-            ),
+            )
+            .unwrap_or(Duration::MAX),
         );
         if options.show_times {
             info!(
@@ -83,7 +84,8 @@ fn build_timeout(baseline_duration: Option<Duration>, options: &Options) -> Opti
         Some(t)
     } else if let Some(baseline) = baseline_duration {
         if let Some(multiplier) = options.build_timeout_multiplier {
-            let timeout = Duration::from_secs_f64(baseline.as_secs_f64() * multiplier);
+            let timeout = Duration::try_from_secs_f64(baseline.as_secs_f64() * multiplier)
+                .unwrap_or(Duration::MAX);
             if options.show_times {
                 info!(
                     "Auto-set build timeout to {}",
-- 
2.43.0


From 931ecf8ed01891013b10b6508b98577bad3cc1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:14 +0000
Subject: [PATCH 15/16] fix: report a failure to write to stdout rather than
 panicking

---
 src/console.rs |  4 +++-
 src/main.rs    | 25 +++++++++++++++++++------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/console.rs b/src/console.rs
index a3ca474..946f093 100644
--- a/src/console.rs
+++ b/src/console.rs
@@ -197,7 +197,9 @@ impl Console {
         // stderr...
         // <https://github.com/sourcefrog/nutmeg/issues/11>
         self.view.clear();
-        print!("{message}");
+        // There's nowhere to report that stdout is closed or full, and the results are in
+        // the output directory too, so keep going.
+        let _ = io::Write::write_all(&mut io::stdout(), message.as_bytes());
     }
 
     pub fn tick(&self) {
diff --git a/src/main.rs b/src/main.rs
index 0cdf0ed..ec75824 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -42,7 +42,7 @@ mod workspace;
 
 use std::env;
 use std::fs::read_to_string;
-use std::io;
+use std::io::{self, Write};
 use std::process::exit;
 
 use anyhow::{anyhow, ensure, Context, Result};
@@ -424,7 +424,8 @@ fn main() -> Result<()> {
     let args = match Cargo::try_parse() {
         Ok(Cargo::Mutants(args)) => args,
         Err(e) => {
-            e.print().expect("Failed to show clap error message");
+            // Like clap itself, ignore failure to write the message: the exit code still tells.
+            let _ = e.print();
             // Clap by default exits with code 2.
             let code = match e.exit_code() {
                 2 => exit_code::USAGE,
@@ -436,10 +437,13 @@ fn main() -> Result<()> {
     };
 
     if args.version {
-        println!("{NAME} {VERSION}");
+        print_stdout(&format!("{NAME} {VERSION}\n"))?;
         return Ok(());
     } else if let Some(shell) = args.completions {
-        generate(shell, &mut Cargo::command(), "cargo", &mut io::stdout());
+        // Generate into memory because `generate` panics if it can't write.
+        let mut script = Vec::new();
+        generate(shell, &mut Cargo::command(), "cargo", &mut script);
+        print_stdout(&String::from_utf8_lossy(&script))?;
         return Ok(());
     }
 
@@ -502,7 +506,7 @@ fn main() -> Result<()> {
 
     console.clear();
     if args.list_files {
-        print!("{}", list_files(&discovered.files, &options));
+        print_stdout(&list_files(&discovered.files, &options))?;
         return Ok(());
     }
     let mut mutants = discovered.mutants;
@@ -516,7 +520,7 @@ fn main() -> Result<()> {
         mutants = shard.select(mutants);
     }
     if args.list {
-        print!("{}", list_mutants(&mutants, &options));
+        print_stdout(&list_mutants(&mutants, &options))?;
     } else {
         let output_dir = OutputDir::new(&output_parent_dir)?;
         if let Some(previously_caught) = previously_caught {
@@ -529,6 +533,15 @@ fn main() -> Result<()> {
     Ok(())
 }
 
+/// Write to stdout, returning an error rather than panicking if it's closed or full.
+fn print_stdout(s: &str) -> Result<()> {
+    let mut stdout = io::stdout().lock();
+    stdout
+        .write_all(s.as_bytes())
+        .and_then(|()| stdout.flush())
+        .context("write to stdout")
+}
+
 #[cfg(test)]
 mod test {
     use clap::CommandFactory;
-- 
2.43.0


From a393d89482e6fef81da55b2d8a92235587989dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 16/16] fix: don't rewrite the original Cargo.toml or
 .cargo/config.toml through a symlink in the copy

---
 src/manifest.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index ee7bf31..6f16322 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -5,9 +5,9 @@
 //! In particular, when the tree is copied we have to fix up relative paths, so
 //! that they still work from the new location of the scratch directory.
 
-use std::fs::{read_to_string, write};
+use std::fs::{read_to_string, remove_file, write};
 
-use anyhow::Context;
+use anyhow::{ensure, Context};
 use camino::Utf8Path;
 use tracing::debug;
 
@@ -26,13 +26,24 @@ pub fn fix_manifest(manifest_scratch_path: &Utf8Path, source_dir: &Utf8Path) ->
     if let Some(changed_toml) = fix_manifest_toml(&toml_str, source_dir)? {
         let toml_str =
             toml::to_string_pretty(&changed_toml).context("serialize changed manifest")?;
-        write(manifest_scratch_path, toml_str.as_bytes()).with_context(|| {
+        replace_file(manifest_scratch_path, &toml_str).with_context(|| {
             format!("Failed to write fixed manifest to {manifest_scratch_path}")
         })?;
     }
     Ok(())
 }
 
+/// Write a file in the scratch directory, without following a symlink.
+///
+/// Symlinks are copied as symlinks, so they might lead to a file in the original tree.
+fn replace_file(path: &Utf8Path, content: &str) -> Result<()> {
+    if path.is_symlink() {
+        remove_file(path)?;
+    }
+    write(path, content.as_bytes())?;
+    Ok(())
+}
+
 /// Fix any relative paths within a Cargo.toml manifest.
 ///
 /// Returns the new manifest, or None if no changes were made.
@@ -130,8 +141,12 @@ pub fn fix_cargo_config(build_path: &Utf8Path, source_path: &Utf8Path) -> Result
     if config_path.exists() {
         let toml_str = read_to_string(&config_path).context("read .cargo/config.toml")?;
         if let Some(changed_toml) = fix_cargo_config_toml(&toml_str, source_path)? {
-            write(build_path.join(&config_path), changed_toml.as_bytes())
-                .context("write .cargo/config.toml")?;
+            let real_config_dir = build_path.join(".cargo").canonicalize_utf8()?;
+            ensure!(
+                real_config_dir.starts_with(build_path.canonicalize_utf8()?),
+                ".cargo is outside of the build directory, at {real_config_dir:?}"
+            );
+            replace_file(&config_path, &changed_toml).context("write .cargo/config.toml")?;
         }
     }
     Ok(())
-- 
2.43.0

