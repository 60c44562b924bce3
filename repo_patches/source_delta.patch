From b9566e8914afc995adec65ae18e84ccafd7fe887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 1/6] fix: find out that a release must be refused before
 changing any file

---
 .../scripts/prepare_release.rs                | 66 +++++++++++--------
 1 file changed, 40 insertions(+), 26 deletions(-)

diff --git a/.codex/skills/prepare-release/scripts/prepare_release.rs b/.codex/skills/prepare-release/scripts/prepare_release.rs
index 877e1fb..0a97c46 100644
--- a/.codex/skills/prepare-release/scripts/prepare_release.rs
+++ b/.codex/skills/prepare-release/scripts/prepare_release.rs
@@ -60,42 +60,24 @@ fn run() -> Result<(), String> {
         return Err("version must be explicit x.y.z, for example 0.11.0".to_owned());
     }
 
-    let derive_manifest = root.join("parse-display-derive").join("Cargo.toml");
-    let lockfile = root.join("Cargo.lock");
-
     let previous_version = previous_changelog_version(&root.join("CHANGELOG.md"))?;
     let derive_changed = derive_changed_since_last_version(&root)?;
 
     let mut changed = Vec::new();
-    set_package_version(&parse_display_manifest, &version, dry_run, &mut changed)?;
-    set_lock_package_version(&lockfile, "parse-display", &version, dry_run, &mut changed)?;
-    update_docs(&root, &current_version, &version, dry_run, &mut changed)?;
-
-    if derive_changed {
-        set_package_version(&derive_manifest, &version, dry_run, &mut changed)?;
-        set_parse_display_derive_dependency(
-            &parse_display_manifest,
-            &version,
-            dry_run,
-            &mut changed,
-        )?;
-        set_lock_package_version(
-            &lockfile,
-            "parse-display-derive",
+    for dry_run in [true, dry_run] {
+        // The first pass finds whatever makes the release impossible before any file is changed.
+        changed.clear();
+        update_release_files(
+            &root,
+            &current_version,
+            &previous_version,
             &version,
+            derive_changed,
             dry_run,
             &mut changed,
         )?;
     }
 
-    update_changelog(
-        &root.join("CHANGELOG.md"),
-        &previous_version,
-        &version,
-        dry_run,
-        &mut changed,
-    )?;
-
     changed.sort();
     changed.dedup();
 
@@ -109,6 +91,38 @@ fn run() -> Result<(), String> {
     Ok(())
 }
 
+fn update_release_files(
+    root: &Path,
+    current_version: &str,
+    previous_version: &str,
+    version: &str,
+    derive_changed: bool,
+    dry_run: bool,
+    changed: &mut Vec<PathBuf>,
+) -> Result<(), String> {
+    let parse_display_manifest = root.join("parse-display").join("Cargo.toml");
+    let derive_manifest = root.join("parse-display-derive").join("Cargo.toml");
+    let lockfile = root.join("Cargo.lock");
+
+    set_package_version(&parse_display_manifest, version, dry_run, changed)?;
+    set_lock_package_version(&lockfile, "parse-display", version, dry_run, changed)?;
+    update_docs(root, current_version, version, dry_run, changed)?;
+
+    if derive_changed {
+        set_package_version(&derive_manifest, version, dry_run, changed)?;
+        set_parse_display_derive_dependency(&parse_display_manifest, version, dry_run, changed)?;
+        set_lock_package_version(&lockfile, "parse-display-derive", version, dry_run, changed)?;
+    }
+
+    update_changelog(
+        &root.join("CHANGELOG.md"),
+        previous_version,
+        version,
+        dry_run,
+        changed,
+    )
+}
+
 fn is_version(value: &str) -> bool {
     parse_version(value).is_some()
 }
-- 
2.43.0


From 266fb4c2edf82487c2a1bc9907efbe01dcb5ed2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 2/6] fix: update everything that depends on the old version
 before the old version

---
 .codex/skills/prepare-release/scripts/prepare_release.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/.codex/skills/prepare-release/scripts/prepare_release.rs b/.codex/skills/prepare-release/scripts/prepare_release.rs
index 0a97c46..ac767da 100644
--- a/.codex/skills/prepare-release/scripts/prepare_release.rs
+++ b/.codex/skills/prepare-release/scripts/prepare_release.rs
@@ -104,7 +104,6 @@ fn update_release_files(
     let derive_manifest = root.join("parse-display-derive").join("Cargo.toml");
     let lockfile = root.join("Cargo.lock");
 
-    set_package_version(&parse_display_manifest, version, dry_run, changed)?;
     set_lock_package_version(&lockfile, "parse-display", version, dry_run, changed)?;
     update_docs(root, current_version, version, dry_run, changed)?;
 
@@ -114,6 +113,9 @@ fn update_release_files(
         set_lock_package_version(&lockfile, "parse-display-derive", version, dry_run, changed)?;
     }
 
+    // An interrupted run is completed by running it again, which takes the old version from this
+    // manifest and refuses a version that is in CHANGELOG.md. So these two come last.
+    set_package_version(&parse_display_manifest, version, dry_run, changed)?;
     update_changelog(
         &root.join("CHANGELOG.md"),
         previous_version,
-- 
2.43.0


From cd90aa85726443858c9f11e95801e6673a80fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 3/6] fix: replace release files as a whole

---
 .../scripts/prepare_release.rs                | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/.codex/skills/prepare-release/scripts/prepare_release.rs b/.codex/skills/prepare-release/scripts/prepare_release.rs
index ac767da..e0af61d 100644
--- a/.codex/skills/prepare-release/scripts/prepare_release.rs
+++ b/.codex/skills/prepare-release/scripts/prepare_release.rs
@@ -7,6 +7,7 @@ edition = "2024"
 use std::env;
 use std::ffi::OsStr;
 use std::fs;
+use std::io::{self, Write};
 use std::path::{Path, PathBuf};
 use std::process::Command;
 
@@ -219,12 +220,29 @@ fn write_if_changed(
 
     changed.push(path.to_path_buf());
     if !dry_run {
-        fs::write(path, text)
+        replace_file(path, &text)
             .map_err(|err| format!("failed to write {}: {err}", path.display()))?;
     }
     Ok(())
 }
 
+/// Replaces the file as a whole, so that it is never left empty or half written.
+fn replace_file(path: &Path, text: &str) -> io::Result<()> {
+    let mut temp = path.as_os_str().to_owned();
+    temp.push(".tmp");
+
+    let replace = || {
+        let mut file = fs::File::create(&temp)?;
+        file.write_all(text.as_bytes())?;
+        file.set_permissions(fs::metadata(path)?.permissions())?;
+        file.sync_all()?;
+        fs::rename(&temp, path)
+    };
+    replace().inspect_err(|_| {
+        let _ = fs::remove_file(&temp);
+    })
+}
+
 fn package_version(manifest: &Path) -> Result<String, String> {
     for line in read(manifest)?.lines() {
         if let Some(version) = parse_quoted_value(line, "version") {
-- 
2.43.0


From 78658d2c949f31202678a7191b282e39e8720df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 4/6] fix: leave docs without version references as they are

---
 .codex/skills/prepare-release/scripts/prepare_release.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/.codex/skills/prepare-release/scripts/prepare_release.rs b/.codex/skills/prepare-release/scripts/prepare_release.rs
index e0af61d..ad454f1 100644
--- a/.codex/skills/prepare-release/scripts/prepare_release.rs
+++ b/.codex/skills/prepare-release/scripts/prepare_release.rs
@@ -387,8 +387,7 @@ fn update_doc_text(text: &str, old_version: &str, version: &str) -> String {
     let docs_after = format!("docs.rs/parse-display/{version}/");
     let mut in_deprecated_section = false;
 
-    let lines = text
-        .lines()
+    text.split_inclusive('\n')
         .map(|line| {
             let doc_line = markdown_text(line);
             if doc_line.starts_with("## ") {
@@ -402,9 +401,7 @@ fn update_doc_text(text: &str, old_version: &str, version: &str) -> String {
             }
             line
         })
-        .collect::<Vec<_>>();
-
-    finish(lines)
+        .collect()
 }
 
 fn markdown_text(line: &str) -> &str {
-- 
2.43.0


From 03a9a753c863bfd23fa705e00fb71faf3d19300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 5/6] fix: neither skip docs whose kind cannot be read nor
 follow links out of the repository

---
 .codex/skills/prepare-release/scripts/prepare_release.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/.codex/skills/prepare-release/scripts/prepare_release.rs b/.codex/skills/prepare-release/scripts/prepare_release.rs
index ad454f1..91a45ba 100644
--- a/.codex/skills/prepare-release/scripts/prepare_release.rs
+++ b/.codex/skills/prepare-release/scripts/prepare_release.rs
@@ -425,8 +425,11 @@ fn collect_doc_files(root: &Path, dir: &Path, files: &mut Vec<PathBuf>) -> Resul
         let entry = entry.map_err(|err| err.to_string())?;
         let path = entry.path();
         let name = entry.file_name();
+        let file_type = entry
+            .file_type()
+            .map_err(|err| format!("failed to read {}: {err}", path.display()))?;
 
-        if path.is_dir() {
+        if file_type.is_dir() {
             if matches!(name.to_str(), Some(".git" | "target" | ".codex")) {
                 continue;
             }
@@ -434,7 +437,7 @@ fn collect_doc_files(root: &Path, dir: &Path, files: &mut Vec<PathBuf>) -> Resul
             continue;
         }
 
-        if path.is_file()
+        if file_type.is_file()
             && matches!(path.extension().and_then(OsStr::to_str), Some("md" | "rs"))
             && !matches!(
                 path.file_name().and_then(OsStr::to_str),
-- 
2.43.0


From eefa3fa2393a4195e6f0068fa52c34a33664350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:34 +0000
Subject: [PATCH 6/6] fix: an enum without parsable variants publishes a
 pattern that matches nothing

---
 parse-display-derive/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 2d47b5e..d1db4a7 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -276,7 +276,10 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         },
     ));
     if cfg!(feature = "std") {
-        let body = if regex_args.is_empty() {
+        let body = if regex_fmts.is_empty() {
+            // No variant can be parsed, so the pattern must match no string.
+            quote! { r"[^\s\S]".into() }
+        } else if regex_args.is_empty() {
             let fmts = regex_fmts
                 .into_iter()
                 .map(|s| escape(&s.unwrap()))
-- 
2.43.0

