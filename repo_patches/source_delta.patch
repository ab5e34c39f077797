From b515d2fdf1438bdc198681001adc2279e2b472ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 01/34] fix: report errors while listing a directory instead of
 skipping entries

A failing readdir made the rest of the directory silently disappear from
the site (or from the static files) while the build reported success.
---
 stuart-core/src/fs/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 0f3129a..f507a71 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -172,9 +172,8 @@ impl Node {
             .map_err(|_| Error::Fs(FsError::NotFound(dir.to_string_lossy().to_string())))?;
 
         let children = content
-            .flatten()
-            .map(|path| {
-                let path = path.path();
+            .map(|entry| {
+                let path = entry.map_err(|_| Error::Fs(FsError::Read))?.path();
 
                 match metadata(&path).map(|m| m.file_type()) {
                     Ok(t) if t.is_dir() => Self::create_from_dir(&path, parse, plugins),
-- 
2.43.0


From 89f2095cb16780d41af89383fd08c8455900fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:06 +0000
Subject: [PATCH 02/34] fix: read directory entries in name order

The order in which the filesystem lists entries decided the order of loops
over a directory and of ties in sorted loops, so that the same sources could
give different sites on different machines.
---
 stuart-core/src/fs/mod.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index f507a71..0d84d62 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -171,15 +171,20 @@ impl Node {
         let content = read_dir(dir)
             .map_err(|_| Error::Fs(FsError::NotFound(dir.to_string_lossy().to_string())))?;
 
-        let children = content
-            .map(|entry| {
-                let path = entry.map_err(|_| Error::Fs(FsError::Read))?.path();
-
-                match metadata(&path).map(|m| m.file_type()) {
-                    Ok(t) if t.is_dir() => Self::create_from_dir(&path, parse, plugins),
-                    Ok(t) if t.is_file() => Self::create_from_file(&path, parse, plugins),
-                    _ => Err(Error::Fs(FsError::Read)),
-                }
+        // The order in which the filesystem lists its entries is arbitrary, so sort them by name.
+        let mut paths = content
+            .map(|entry| entry.map(|entry| entry.path()))
+            .collect::<Result<Vec<_>, _>>()
+            .map_err(|_| Error::Fs(FsError::Read))?;
+
+        paths.sort();
+
+        let children = paths
+            .into_iter()
+            .map(|path| match metadata(&path).map(|m| m.file_type()) {
+                Ok(t) if t.is_dir() => Self::create_from_dir(&path, parse, plugins),
+                Ok(t) if t.is_file() => Self::create_from_file(&path, parse, plugins),
+                _ => Err(Error::Fs(FsError::Read)),
             })
             .collect::<Result<_, _>>()?;
 
-- 
2.43.0


From 5f102a28243fc8931be18bc160b9126358f2d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:09 +0000
Subject: [PATCH 03/34] fix: report errors while looking for build scripts

A filesystem error while listing the scripts directory made the build run
without some or all of its scripts and still report success. Scripts are
also run in name order now rather than in whatever order they are listed.
---
 stuart/src/build.rs   |  2 +-
 stuart/src/scripts.rs | 59 ++++++++++++++++++++++++++++---------------
 2 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index 48c31da..79ba589 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -70,7 +70,7 @@ impl StuartContext {
 
         let config: Config = config.into();
 
-        let scripts = Scripts::from_directory(path.parent().unwrap().join("scripts"))
+        let scripts = Scripts::from_directory(path.parent().unwrap().join("scripts"))?
             .with_environment_variables(vec![
                 (
                     "STUART_MANIFEST_PATH".into(),
diff --git a/stuart/src/scripts.rs b/stuart/src/scripts.rs
index 097012b..0ebf3a3 100644
--- a/stuart/src/scripts.rs
+++ b/stuart/src/scripts.rs
@@ -1,6 +1,9 @@
 //! Provides methods for locating and executing build scripts.
 
-use std::fs::read_dir;
+use stuart_core::error::FsError;
+
+use std::fs::{metadata, read_dir};
+use std::io::ErrorKind;
 use std::path::{Path, PathBuf};
 use std::process::Command;
 
@@ -52,28 +55,42 @@ pub enum ScriptError {
 
 impl Scripts {
     /// Loads scripts from the given directory.
-    pub fn from_directory(dir: impl AsRef<Path>) -> Self {
-        if let Ok(dir) = read_dir(dir.as_ref()) {
-            let mut scripts = Self::default();
-
-            for entry in dir.flatten() {
-                if entry.path().is_file() {
-                    if constants::PRE_BUILD_SCRIPT_NAMES
-                        .contains(&entry.file_name().to_string_lossy().as_ref())
-                    {
-                        scripts.on_pre_build.push(entry.path());
-                    } else if constants::POST_BUILD_SCRIPT_NAMES
-                        .contains(&entry.file_name().to_string_lossy().as_ref())
-                    {
-                        scripts.on_post_build.push(entry.path());
-                    }
-                }
+    ///
+    /// If the directory does not exist, there are no scripts. Any other filesystem error is returned,
+    /// since continuing would silently skip scripts.
+    pub fn from_directory(dir: impl AsRef<Path>) -> Result<Self, FsError> {
+        let entries = match read_dir(dir.as_ref()) {
+            Ok(entries) => entries,
+            Err(e) if matches!(e.kind(), ErrorKind::NotFound | ErrorKind::NotADirectory) => {
+                return Ok(Self::default())
+            }
+            Err(_) => return Err(FsError::Read),
+        };
+
+        let mut scripts = Self::default();
+
+        for entry in entries {
+            let entry = entry.map_err(|_| FsError::Read)?;
+            let name = entry.file_name();
+            let name = name.to_string_lossy();
+
+            let list = if constants::PRE_BUILD_SCRIPT_NAMES.contains(&name.as_ref()) {
+                &mut scripts.on_pre_build
+            } else if constants::POST_BUILD_SCRIPT_NAMES.contains(&name.as_ref()) {
+                &mut scripts.on_post_build
+            } else {
+                continue;
+            };
+
+            if metadata(entry.path()).map_err(|_| FsError::Read)?.is_file() {
+                list.push(entry.path());
             }
-
-            scripts
-        } else {
-            Self::default()
         }
+
+        scripts.on_pre_build.sort();
+        scripts.on_post_build.sort();
+
+        Ok(scripts)
     }
 
     /// Sets the environment variables to pass to scripts.
-- 
2.43.0


From 9dbe33b5e228d157058618817c15e010e68f95e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 04/34] fix: report errors while checking for the static and
 temp directories

An error other than the directory not existing made the build leave out all
static or temporary files and still report success.
---
 stuart/src/build.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stuart/src/build.rs b/stuart/src/build.rs
index 79ba589..a659826 100644
--- a/stuart/src/build.rs
+++ b/stuart/src/build.rs
@@ -4,6 +4,7 @@ use crate::error::StuartError;
 use crate::scripts::Scripts;
 use crate::{config, plugins};
 
+use stuart_core::error::FsError;
 use stuart_core::{Config, Node, Stuart, TracebackError};
 
 use std::fs::{read_to_string, remove_dir_all};
@@ -142,7 +143,7 @@ impl StuartContext {
         for dir in ["static", "temp"] {
             let dir_path = self.project_dir.join(dir);
 
-            if dir_path.exists() {
+            if dir_path.try_exists().map_err(|_| FsError::Read)? {
                 let node = Node::new(dir_path, false)?;
                 self.stuart.merge_output(node)?;
             }
-- 
2.43.0


From 75c868253eb0dab8fb8fb897c14e09778800bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 05/34] fix: publish static files called *.json, root.html and
 md.html

The rules which leave templates and data files out of the output were also
applied to static and temporary files, which silently dropped them.
---
 stuart-core/src/fs/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 0d84d62..f82d357 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -357,9 +357,11 @@ impl Node {
                 parsed_contents,
                 ..
             } => {
-                if name != "root.html"
-                    && name != "md.html"
-                    && (config.save_data_files || !name.ends_with(".json"))
+                // Static and temporary files are always saved, whatever they are called.
+                if parsed_contents.is_ignored()
+                    || (name != "root.html"
+                        && name != "md.html"
+                        && (config.save_data_files || !name.ends_with(".json")))
                 {
                     if config.strip_extensions
                         && name.ends_with(".html")
-- 
2.43.0


From c39418f7847f536242662e39606c8f66e452f9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:28 +0000
Subject: [PATCH 06/34] fix: detect conflicts between output paths before
 saving

Different source files can be saved to the same path: `a.md` and `a.html`,
`a.html` and `a/index.html`, or a file called `a` and the directory created
for `a.html`. One of them silently overwrote the other, or saving failed after
the previous output had already been removed.
---
 stuart-core/src/fs/mod.rs | 110 ++++++++++++++++++++++++++++++--------
 1 file changed, 89 insertions(+), 21 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index f82d357..29859cb 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -14,6 +14,8 @@ pub use crate::parse::ParsedContents;
 use humphrey_json::prelude::*;
 use humphrey_json::Value;
 
+use std::collections::hash_map::Entry;
+use std::collections::HashMap;
 use std::fmt::Debug;
 use std::fs::{create_dir, metadata, read, read_dir, remove_dir_all, write};
 use std::io::ErrorKind;
@@ -265,6 +267,15 @@ impl Node {
     pub fn save(&self, path: impl AsRef<Path>, config: &Config) -> Result<(), Error> {
         let path = path.as_ref().to_path_buf();
 
+        // Find conflicts before the previous output is removed.
+        if let Self::Directory { children, .. } = self {
+            let mut saved = HashMap::new();
+
+            for child in children {
+                child.check_conflicts(Path::new(""), config, &mut saved)?;
+            }
+        }
+
         if path.exists() && path.is_dir() {
             remove_dir_all(&path).map_err(|_| Error::Fs(FsError::Write))?;
         }
@@ -332,6 +343,79 @@ impl Node {
         }
     }
 
+    /// Recursively checks that this node and its descendants will not be saved to the same path as any other node.
+    ///
+    /// The `saved` argument maps paths to whether they are directories, and the node which will be saved there.
+    fn check_conflicts<'a>(
+        &'a self,
+        path: &Path,
+        config: &Config,
+        saved: &mut HashMap<PathBuf, (bool, &'a Node)>,
+    ) -> Result<(), Error> {
+        let mut add = |path: PathBuf, is_dir: bool| match saved.entry(path) {
+            Entry::Occupied(entry) => match entry.get() {
+                (true, _) if is_dir => Ok(()),
+                (_, other) => Err(Error::Fs(FsError::Conflict(
+                    other.source().to_path_buf(),
+                    self.source().to_path_buf(),
+                ))),
+            },
+            Entry::Vacant(entry) => {
+                entry.insert((is_dir, self));
+                Ok(())
+            }
+        };
+
+        match self {
+            Self::Directory { name, children, .. } => {
+                let dir = path.join(name);
+
+                add(dir.clone(), true)?;
+
+                for child in children {
+                    child.check_conflicts(&dir, config, saved)?;
+                }
+            }
+            Self::File { .. } => {
+                if let Some((dir, name)) = self.output_name(config) {
+                    let mut path = path.to_path_buf();
+
+                    if let Some(dir) = dir {
+                        path.push(dir);
+                        add(path.clone(), true)?;
+                    }
+
+                    add(path.join(name), false)?;
+                }
+            }
+        }
+
+        Ok(())
+    }
+
+    /// Returns the name under which the file will be saved, as well as the additional directory it will be saved in, if any.
+    /// If the file will not be saved, returns `None`.
+    fn output_name(&self, config: &Config) -> Option<(Option<&str>, &str)> {
+        let name = self.name();
+        let is_ignored = self.parsed_contents().is_ignored();
+
+        // Static and temporary files are always saved, whatever they are called.
+        if !is_ignored
+            && (name == "root.html"
+                || name == "md.html"
+                || (!config.save_data_files && name.ends_with(".json")))
+        {
+            return None;
+        }
+
+        match name.strip_suffix(".html") {
+            Some(page) if config.strip_extensions && page != "index" && !is_ignored => {
+                Some((Some(page), "index.html"))
+            }
+            _ => Some((None, name)),
+        }
+    }
+
     /// Recursively saves this node and its descendants to the filesystem.
     fn save_recur(&self, path: impl AsRef<Path>, config: &Config) -> Result<(), Error> {
         let path = path.as_ref().to_path_buf();
@@ -351,25 +435,10 @@ impl Node {
                     child.save_recur(&dir, config)?;
                 }
             }
-            Self::File {
-                name,
-                contents,
-                parsed_contents,
-                ..
-            } => {
-                // Static and temporary files are always saved, whatever they are called.
-                if parsed_contents.is_ignored()
-                    || (name != "root.html"
-                        && name != "md.html"
-                        && (config.save_data_files || !name.ends_with(".json")))
-                {
-                    if config.strip_extensions
-                        && name.ends_with(".html")
-                        && name != "index.html"
-                        && !parsed_contents.is_ignored()
-                    {
-                        let directory_name = name.strip_suffix(".html").unwrap().to_string();
-                        let dir = path.join(directory_name);
+            Self::File { contents, .. } => {
+                if let Some((dir, name)) = self.output_name(config) {
+                    if let Some(dir) = dir {
+                        let dir = path.join(dir);
 
                         match create_dir(&dir) {
                             Ok(_) => (),
@@ -377,8 +446,7 @@ impl Node {
                             Err(_) => return Err(Error::Fs(FsError::Write)),
                         };
 
-                        write(dir.join("index.html"), contents)
-                            .map_err(|_| Error::Fs(FsError::Write))?;
+                        write(dir.join(name), contents).map_err(|_| Error::Fs(FsError::Write))?;
                     } else {
                         write(path.join(name), contents).map_err(|_| Error::Fs(FsError::Write))?;
                     }
-- 
2.43.0


From 770c58d23fc08dd127ab1560fcf03b8e4a373554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 07/34] fix: rebuild when the watcher reports lost
 notifications

Events without a path, such as the overflow of the notification queue, made
the development server panic.
---
 stuart/src/serve/mod.rs | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index d4e7e02..9d0dc94 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -96,30 +96,34 @@ fn build_watcher(
 ) {
     loop {
         if let Ok(e) = rx.recv() {
-            let p = e.path.as_ref().unwrap().strip_prefix(&path).unwrap();
+            // If notifications have been lost, there is no path, and anything could have changed.
+            if let Some(changed) = e.path {
+                let p = changed.strip_prefix(&path).unwrap_or(&changed);
 
-            if p.starts_with("dist") || p.starts_with("temp") {
-                continue;
-            }
+                if p.starts_with("dist") || p.starts_with("temp") {
+                    continue;
+                }
 
-            println!();
+                println!();
+
+                if p.ends_with("stuart.toml") {
+                    log!(
+                        "Detected",
+                        "configuration change, please restart the server"
+                    );
+                    continue;
+                }
 
-            if p.ends_with("stuart.toml") {
                 log!(
                     "Detected",
-                    "configuration change, please restart the server"
+                    "change at {}, rebuilding",
+                    changed.to_string_lossy().trim_start_matches("\\\\?\\")
                 );
-                continue;
-            }
+            } else {
+                println!();
 
-            log!(
-                "Detected",
-                "change at {}, rebuilding",
-                e.path
-                    .unwrap()
-                    .to_string_lossy()
-                    .trim_start_matches("\\\\?\\")
-            );
+                log!("Detected", "changes, rebuilding");
+            }
 
             if let Err(e) = ctx.build() {
                 error_handler(&e);
-- 
2.43.0


From 9328be618cd66b50ea356e951d56722ae84e4b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:58 +0000
Subject: [PATCH 08/34] fix: do not rebuild because of the development server's
 own output

The watcher only ignored `dist` and `temp`, so a different output directory
within the project, the exported metadata or plugin build products made every
build start another one, forever.
---
 stuart/src/serve/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 9d0dc94..d3b82a1 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -19,7 +19,7 @@ use notify::{raw_watcher, RawEvent, RecursiveMode, Watcher};
 
 use std::fs::File;
 use std::io::Read;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::mpsc::{channel, Receiver};
 use std::sync::{Arc, Mutex};
 use std::thread::spawn;
@@ -100,7 +100,13 @@ fn build_watcher(
             if let Some(changed) = e.path {
                 let p = changed.strip_prefix(&path).unwrap_or(&changed);
 
-                if p.starts_with("dist") || p.starts_with("temp") {
+                // Ignore everything which is written by the build itself.
+                if p.starts_with("dist")
+                    || p.starts_with("temp")
+                    || p.starts_with("_build")
+                    || p == Path::new("metadata.json")
+                    || changed.starts_with(resolve_output(&path.join(&ctx.output)))
+                {
                     continue;
                 }
 
@@ -150,6 +156,16 @@ fn build_watcher(
     }
 }
 
+/// Resolves the output directory to the path which is used for it by the watcher, even if it does not currently exist.
+fn resolve_output(output: &Path) -> PathBuf {
+    output
+        .parent()
+        .and_then(|parent| parent.canonicalize().ok())
+        .zip(output.file_name())
+        .map(|(parent, name)| parent.join(name))
+        .unwrap_or_else(|| output.to_path_buf())
+}
+
 /// Handles WebSocket connections to the Humphrey server.
 fn websocket_handler(request: Request, stream: Stream, state: Arc<State>) {
     humphrey_ws::websocket_handler(|stream, state: Arc<State>| {
-- 
2.43.0


From ddad6e65aef06e883fc7731ab25cc14a50a75efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 09/34] fix: do not panic when displaying an error without a
 line number

Errors which concern a whole file, such as invalid JSON or a missing template,
have line 0, which underflowed.
---
 stuart/src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stuart/src/error.rs b/stuart/src/error.rs
index e5dc5b2..217e2f1 100644
--- a/stuart/src/error.rs
+++ b/stuart/src/error.rs
@@ -97,7 +97,8 @@ impl<T: Clone + Debug + StuartError> StuartError for TracebackError<T> {
 
         let line = read_to_string(&self.path)
             .ok()
-            .and_then(|s| s.lines().nth(self.line as usize - 1).map(|s| s.to_string()));
+            .zip(self.line.checked_sub(1))
+            .and_then(|(s, line)| s.lines().nth(line as usize).map(|s| s.to_string()));
 
         // Output first line (e.g. `error: some error message`)
         buf.set_color(
-- 
2.43.0


From d4ef301181bc644e654220d158a8a172800256af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 10/34] fix: exit when the development server cannot be started

The error was discarded, so that when the port was already in use the command
kept rebuilding the site without ever serving it.
---
 stuart/src/serve/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index d3b82a1..98fa0d8 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -78,8 +78,12 @@ pub fn serve(args: ArgMatches) -> Result<(), Box<dyn StuartError>> {
             .with_route("/*", serve_dir)
             .with_websocket_route("/__ws", websocket_handler);
 
-        app.run("127.0.0.1:6904")
-            .map_err(|_| Box::new("failed to start development server") as Box<dyn StuartError>)
+        if app.run("127.0.0.1:6904").is_err() {
+            error_handler(
+                &(Box::new("failed to start development server") as Box<dyn StuartError>),
+            );
+            std::process::exit(1);
+        }
     });
 
     build_watcher(rx, streams, path, ctx);
-- 
2.43.0


From 8c4d902b927fec5193c47a8c70fd4c21116bbbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 11/34] fix: escape the name and author in the manifest of a
 new project

Quotes and backslashes in either of them produced a manifest which could not
be parsed, or which said something else.
---
 stuart/src/new.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stuart/src/new.rs b/stuart/src/new.rs
index 0c56aac..1c31130 100644
--- a/stuart/src/new.rs
+++ b/stuart/src/new.rs
@@ -21,12 +21,13 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     let path = PathBuf::from(name);
     let no_git = args.is_present("no-git");
 
-    let mut manifest: Vec<u8> = format!("[site]\nname = \"{}\"", name).as_bytes().to_vec();
+    let mut manifest: Vec<u8> = format!("[site]\nname = {}", toml_string(name)).into_bytes();
 
     if let Some((name, email)) =
         git::get_user_name().and_then(|name| git::get_user_email().map(|email| (name, email)))
     {
-        write!(&mut manifest, "\nauthor = \"{} <{}>\"", name, email).unwrap();
+        let author = format!("{} <{}>", name, email);
+        write!(&mut manifest, "\nauthor = {}", toml_string(&author)).unwrap();
     }
 
     manifest.push(b'\n');
@@ -50,6 +51,11 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     Ok(())
 }
 
+/// Formats the string as a TOML string, escaping it as necessary.
+fn toml_string(s: &str) -> String {
+    toml::Value::String(s.to_string()).to_string()
+}
+
 /// Extracts the embedded directory to the filesystem.
 fn extract(root: &Path, dir: &Dir) -> Result<(), FsError> {
     for child in dir.entries() {
-- 
2.43.0


From 012efa294c5c5104fe941a8cfb05d8d365e43ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:37 +0000
Subject: [PATCH 12/34] fix: initialise the Git repository of a new project at
 an absolute path

`./` was prepended even to absolute paths, so the repository was created in a
stray directory below the current one.
---
 stuart/src/new.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/new.rs b/stuart/src/new.rs
index 1c31130..14d3ce7 100644
--- a/stuart/src/new.rs
+++ b/stuart/src/new.rs
@@ -40,7 +40,7 @@ pub fn new(args: &ArgMatches) -> Result<(), Box<dyn StuartError>> {
     extract(&path, &DEFAULT_PROJECT)?;
 
     if !no_git {
-        git::init_repository(&format!("./{}", name));
+        git::init_repository(&Path::new(".").join(name).to_string_lossy());
 
         write(path.join(".gitignore"), b"dist/\n_build/\nmetadata.json\n")
             .map_err(|_| FsError::Write)?;
-- 
2.43.0


From 5c67d00d5c11bd0a3b83d47ff0fe2b27e0e4e3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 13/34] fix: do not report success when cleaning leaves
 something behind

Errors while checking whether something exists were taken to mean that it does
not, and broken symbolic links were left in place.
---
 stuart/src/main.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/stuart/src/main.rs b/stuart/src/main.rs
index a269842..2321010 100644
--- a/stuart/src/main.rs
+++ b/stuart/src/main.rs
@@ -24,6 +24,7 @@ use crate::logger::{LogLevel, Logger, Progress, LOGGER};
 use clap::{App, Arg, ArgMatches, Command};
 
 use std::fs::{remove_dir_all, remove_file};
+use std::io::ErrorKind;
 use std::path::PathBuf;
 use std::sync::atomic::Ordering;
 
@@ -205,17 +206,17 @@ fn clean() -> Result<(), Box<dyn StuartError>> {
         return Err("current working directory is not a Stuart project".into());
     }
 
-    if PathBuf::from("dist").exists() {
-        remove_dir_all("dist").map_err(|_| "failed to remove output directory")?;
-    }
+    ignore_not_found(remove_dir_all("dist")).map_err(|_| "failed to remove output directory")?;
+    ignore_not_found(remove_dir_all("_build")).map_err(|_| "failed to remove build directory")?;
+    ignore_not_found(remove_file("metadata.json")).map_err(|_| "failed to remove metadata file")?;
 
-    if PathBuf::from("_build").exists() {
-        remove_dir_all("_build").map_err(|_| "failed to remove build directory")?;
-    }
+    Ok(())
+}
 
-    if PathBuf::from("metadata.json").exists() {
-        remove_file("metadata.json").map_err(|_| "failed to remove metadata file")?;
+/// Ignores the error if it is because there was nothing to remove.
+fn ignore_not_found(result: std::io::Result<()>) -> std::io::Result<()> {
+    match result {
+        Err(e) if e.kind() == ErrorKind::NotFound => Ok(()),
+        result => result,
     }
-
-    Ok(())
 }
-- 
2.43.0


From 36acd9c8fa2c95585addbb9d0ea8d1772c9b57bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:04 +0000
Subject: [PATCH 14/34] fix: do not panic when a plugin's Cargo.toml has no
 package name

It is an error of that source of the plugin like any other, so the next one
should be tried.
---
 stuart/src/plugins/source.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index 77517d5..d8484bc 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -54,16 +54,19 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptErro
         });
     }
 
+    let name = get_project_name(&manifest)
+        .ok_or_else(|| ScriptError::CouldNotExecute("<build script>".to_string()))?;
+
     #[cfg(target_os = "windows")]
     let target_file = root
         .as_ref()
         .join("target/release")
-        .join(format!("{}.dll", get_project_name(&manifest).unwrap()));
+        .join(format!("{}.dll", name));
     #[cfg(not(target_os = "windows"))]
     let target_file = root
         .as_ref()
         .join("target/release")
-        .join(format!("lib{}.so", get_project_name(&manifest).unwrap()));
+        .join(format!("lib{}.so", name));
 
     Ok(target_file)
 }
-- 
2.43.0


From 3bde26ab35897cd2bb055a2e3cf4981dc5d9f63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 15/34] fix: load plugins whose package name contains a hyphen

Cargo replaces hyphens with underscores in the name of the library, so it was
compiled but then not found.
---
 stuart/src/plugins/source.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stuart/src/plugins/source.rs b/stuart/src/plugins/source.rs
index d8484bc..e80b230 100644
--- a/stuart/src/plugins/source.rs
+++ b/stuart/src/plugins/source.rs
@@ -54,8 +54,10 @@ pub fn build_cargo_project(root: impl AsRef<Path>) -> Result<PathBuf, ScriptErro
         });
     }
 
+    // Cargo replaces hyphens with underscores in the names of libraries.
     let name = get_project_name(&manifest)
-        .ok_or_else(|| ScriptError::CouldNotExecute("<build script>".to_string()))?;
+        .ok_or_else(|| ScriptError::CouldNotExecute("<build script>".to_string()))?
+        .replace('-', "_");
 
     #[cfg(target_os = "windows")]
     let target_file = root
-- 
2.43.0


From d47039f5d594b5c8f82dac734aca975a2090028f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 16/34] fix: recover from an interrupted clone of a plugin's
 repository

If Git was killed while cloning, all later builds took what it had left behind
for the repository, and failed to update it. Without a `.git` directory they
even updated the repository containing the project instead.
---
 stuart/src/plugins/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/stuart/src/plugins/mod.rs b/stuart/src/plugins/mod.rs
index c1e7b11..3a5502a 100644
--- a/stuart/src/plugins/mod.rs
+++ b/stuart/src/plugins/mod.rs
@@ -14,7 +14,7 @@ use stuart_core::plugins::{Manager, Plugin};
 use libloading::Library;
 
 use std::collections::HashMap;
-use std::fs::create_dir_all;
+use std::fs::{create_dir_all, remove_dir_all, rename};
 use std::path::Path;
 use std::time::Instant;
 
@@ -153,12 +153,24 @@ fn load_from_source(
 
             create_dir_all(root.join("_build/plugins")).map_err(|_| Error::Fs(FsError::Write))?;
 
-            if !git::clone(src, &repo_dir_string) {
+            // Clone to a different directory first, so that an interrupted clone is never mistaken for the repository.
+            let partial_dir = root.join(format!("_build/plugins/{}.partial", name));
+            let partial_dir_string = partial_dir
+                .to_string_lossy()
+                .to_string()
+                .trim_start_matches("\\\\?\\")
+                .to_string();
+
+            remove_dir_all(&partial_dir).ok();
+
+            if !git::clone(src, &partial_dir_string) {
                 Err(format!(
                     "failed to clone Git repository for plugin `{}`",
                     name
                 ))?;
             }
+
+            rename(&partial_dir, &repo_dir).map_err(|_| Error::Fs(FsError::Write))?;
         } else {
             log!("Pulling", "plugin `{}` from `{}`", name, src);
 
-- 
2.43.0


From b0204345d811c6e854e06ed5cefabb4d395eee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 17/34] fix: load plugins in name order

They were loaded in the random order of a hash map, so that if two plugins
handle the same file extension or define a function with the same name, every
run picked one of them at random.
---
 stuart/src/plugins/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stuart/src/plugins/mod.rs b/stuart/src/plugins/mod.rs
index 3a5502a..2baeb4d 100644
--- a/stuart/src/plugins/mod.rs
+++ b/stuart/src/plugins/mod.rs
@@ -55,6 +55,10 @@ pub fn load(
     let mut manager = DynamicPluginManager::new();
 
     if let Some(plugins) = plugins {
+        // The iteration order of the map is random, so sort the plugins by name.
+        let mut plugins = plugins.iter().collect::<Vec<_>>();
+        plugins.sort();
+
         'outer: for (name, src) in plugins {
             let mut e: Option<Box<dyn StuartError>> = None;
 
-- 
2.43.0


From daefe25439c2cdbc93aa4be6839e921c2655a0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 18/34] fix: make `ifle` true for equal values

---
 stuart-core/src/functions/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index f203228..cd26369 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -34,7 +34,7 @@ pub mod parsers {
         ifgt, IfGt, >;
         ifge, IfGe, >=;
         iflt, IfLt, <;
-        ifle, IfLe, <;
+        ifle, IfLe, <=;
     ];
 }
 
-- 
2.43.0


From e19e9b609417022a6e6104d226bc4ef6073e90af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 19/34] fix: do not panic when a markdown file loops over
 markdown files

At that point they have not been converted to HTML yet, so their content is
not available.
---
 stuart-core/src/parse/markdown.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/markdown.rs b/stuart-core/src/parse/markdown.rs
index 3b24ee1..620e182 100644
--- a/stuart-core/src/parse/markdown.rs
+++ b/stuart-core/src/parse/markdown.rs
@@ -106,7 +106,8 @@ impl ParsedMarkdown {
     ///   is not required, consider using [`ParsedMarkdown::to_json`], which does the same thing without returning the contents.
     pub fn to_value(&self) -> Value {
         let mut v = self.frontmatter_to_value();
-        v["content"] = Value::String(self.html.as_ref().unwrap().clone());
+        // Functions within markdown files are executed before any markdown is converted to HTML.
+        v["content"] = self.html.clone().map_or(Value::Null, Value::String);
         v["markdown"] = Value::String(self.markdown_string.clone());
         v
     }
-- 
2.43.0


From a872b8906fbb36cff025262f8fdf3073a0e074bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 20/34] fix: do not panic when parsing an argument which is a
 single quote

---
 stuart-core/src/parse/function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart-core/src/parse/function.rs b/stuart-core/src/parse/function.rs
index eebbff2..79615bc 100644
--- a/stuart-core/src/parse/function.rs
+++ b/stuart-core/src/parse/function.rs
@@ -46,7 +46,7 @@ impl RawArgument {
             }
 
             Ok(Self::Variable(variable_name.to_string()))
-        } else if arg.starts_with('"') && arg.ends_with('"') {
+        } else if arg.len() >= 2 && arg.starts_with('"') && arg.ends_with('"') {
             // Parse a positional string argument.
 
             let string = arg.strip_prefix('"').unwrap().strip_suffix('"').unwrap();
-- 
2.43.0


From d6b46324a09d43c0f70da6298e5e0c39dc70779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 21/34] fix: skip the body of a loop over nothing

The body was processed once without the loop variable, and the end of the loop
then closed the block around it. Within another loop this silently produced the
wrong output.
---
 stuart-core/src/functions/parsers/for.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/stuart-core/src/functions/parsers/for.rs b/stuart-core/src/functions/parsers/for.rs
index 9d58df0..0b7d866 100644
--- a/stuart-core/src/functions/parsers/for.rs
+++ b/stuart-core/src/functions/parsers/for.rs
@@ -228,6 +228,27 @@ impl Function for ForFunction {
             variable_iter = Box::new(variable_iter.take(l));
         }
 
+        let mut variable_iter = variable_iter.peekable();
+
+        // If there is nothing to iterate over, skip to the end of the loop, including any nested blocks.
+        if variable_iter.peek().is_none() {
+            let mut depth = 1;
+
+            while depth > 0 {
+                let token = scope
+                    .tokens
+                    .next()
+                    .ok_or_else(|| self_token.traceback(ProcessError::UnexpectedEndOfFile))?;
+
+                match token.as_function().as_ref().map_or("", |f| f.name()) {
+                    "end" => depth -= 1,
+                    "begin" | "for" | "ifdefined" | "ifeq" | "ifne" | "ifgt" | "ifge" | "iflt"
+                    | "ifle" => depth += 1,
+                    _ => (),
+                }
+            }
+        }
+
         for variable in variable_iter {
             scope.tokens.rewind_to(waypoint);
 
-- 
2.43.0


From 9f31eaf97ab3c64c39fc4dbdee07002b5241148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:25 +0000
Subject: [PATCH 22/34] fix: watch for changes before the first build

---
 stuart/src/serve/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 98fa0d8..35efd97 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -57,6 +57,11 @@ pub fn serve(args: ArgMatches) -> Result<(), Box<dyn StuartError>> {
 
     let mut ctx = StuartContext::init(&manifest_path, &output, "development")?;
 
+    // Start watching before the first build, so that changes made during it are not missed.
+    let (tx, rx) = channel();
+    let mut watcher = raw_watcher(tx).unwrap();
+    watcher.watch(&path, RecursiveMode::Recursive).unwrap();
+
     log!("Started", "development server at http://localhost:6904\n");
 
     if let Err(e) = ctx.build() {
@@ -69,10 +74,6 @@ pub fn serve(args: ArgMatches) -> Result<(), Box<dyn StuartError>> {
         path: full_output_path,
     };
 
-    let (tx, rx) = channel();
-    let mut watcher = raw_watcher(tx).unwrap();
-    watcher.watch(&path, RecursiveMode::Recursive).unwrap();
-
     spawn(move || {
         let app = App::new_with_config(8, state)
             .with_route("/*", serve_dir)
-- 
2.43.0


From 8b493cee5116c070ac897bf013599430e5ef0b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 23/34] fix: report a failure to watch for changes instead of
 panicking

---
 stuart/src/serve/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 35efd97..28ec7fd 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -59,8 +59,10 @@ pub fn serve(args: ArgMatches) -> Result<(), Box<dyn StuartError>> {
 
     // Start watching before the first build, so that changes made during it are not missed.
     let (tx, rx) = channel();
-    let mut watcher = raw_watcher(tx).unwrap();
-    watcher.watch(&path, RecursiveMode::Recursive).unwrap();
+    let mut watcher = raw_watcher(tx).map_err(|_| "failed to watch for changes")?;
+    watcher
+        .watch(&path, RecursiveMode::Recursive)
+        .map_err(|_| "failed to watch for changes")?;
 
     log!("Started", "development server at http://localhost:6904\n");
 
-- 
2.43.0


From 4cb838e12a1ea2ab3064c68689f859b529ff57b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:53 +0000
Subject: [PATCH 24/34] fix: clone a plugin's repository over an earlier
 download

---
 stuart/src/plugins/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stuart/src/plugins/mod.rs b/stuart/src/plugins/mod.rs
index 2baeb4d..39f1ef3 100644
--- a/stuart/src/plugins/mod.rs
+++ b/stuart/src/plugins/mod.rs
@@ -152,7 +152,7 @@ fn load_from_source(
             .trim_start_matches("\\\\?\\")
             .to_string();
 
-        if !repo_dir.exists() {
+        if !repo_dir.join(".git").exists() {
             log!("Cloning", "plugin `{}` from `{}`", name, src);
 
             create_dir_all(root.join("_build/plugins")).map_err(|_| Error::Fs(FsError::Write))?;
@@ -174,6 +174,9 @@ fn load_from_source(
                 ))?;
             }
 
+            // The plugin may have been downloaded from another source before.
+            remove_dir_all(&repo_dir).ok();
+
             rename(&partial_dir, &repo_dir).map_err(|_| Error::Fs(FsError::Write))?;
         } else {
             log!("Pulling", "plugin `{}` from `{}`", name, src);
-- 
2.43.0


From 98ce6831331ef3d900d2a30f3c78a4fd1ad37c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:20 +0000
Subject: [PATCH 25/34] fix: clone a plugin's repository again if its source
 has changed

---
 stuart/src/config/git.rs  | 14 ++++++++++++++
 stuart/src/plugins/mod.rs |  6 ++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/stuart/src/config/git.rs b/stuart/src/config/git.rs
index c653970..080f8e4 100644
--- a/stuart/src/config/git.rs
+++ b/stuart/src/config/git.rs
@@ -63,6 +63,20 @@ pub fn clone(url: &str, path: &str) -> bool {
         .unwrap_or(false)
 }
 
+/// Gets the URL which the given repository was cloned from.
+pub fn get_origin(path: &str) -> Option<String> {
+    let output = Command::new("git")
+        .args(["-C", path, "config", "--get", "remote.origin.url"])
+        .output()
+        .ok()?;
+
+    if output.status.success() {
+        Some(String::from_utf8_lossy(&output.stdout).trim().to_string())
+    } else {
+        None
+    }
+}
+
 /// Attempts to pull the latest changes from the remote repository into the given directory.
 ///
 /// Returns `true` if the pull was successful, `false` otherwise.
diff --git a/stuart/src/plugins/mod.rs b/stuart/src/plugins/mod.rs
index 39f1ef3..b9b0b77 100644
--- a/stuart/src/plugins/mod.rs
+++ b/stuart/src/plugins/mod.rs
@@ -152,7 +152,10 @@ fn load_from_source(
             .trim_start_matches("\\\\?\\")
             .to_string();
 
-        if !repo_dir.join(".git").exists() {
+        // The directory may contain the repository of a different source.
+        if !repo_dir.join(".git").exists()
+            || git::get_origin(&repo_dir_string).as_deref() != Some(src)
+        {
             log!("Cloning", "plugin `{}` from `{}`", name, src);
 
             create_dir_all(root.join("_build/plugins")).map_err(|_| Error::Fs(FsError::Write))?;
@@ -174,7 +177,6 @@ fn load_from_source(
                 ))?;
             }
 
-            // The plugin may have been downloaded from another source before.
             remove_dir_all(&repo_dir).ok();
 
             rename(&partial_dir, &repo_dir).map_err(|_| Error::Fs(FsError::Write))?;
-- 
2.43.0


From dac7e3893c6ee552c5ed5f6b45c585e297fcabcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:15 +0000
Subject: [PATCH 26/34] fix: never mistake a partially removed plugin
 repository for a complete one

---
 stuart/src/plugins/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stuart/src/plugins/mod.rs b/stuart/src/plugins/mod.rs
index b9b0b77..939ab1b 100644
--- a/stuart/src/plugins/mod.rs
+++ b/stuart/src/plugins/mod.rs
@@ -177,7 +177,12 @@ fn load_from_source(
                 ))?;
             }
 
-            remove_dir_all(&repo_dir).ok();
+            // Move the old directory away first, so that a partially removed repository is never mistaken for a complete one.
+            let old_dir = root.join(format!("_build/plugins/{}.old", name));
+
+            remove_dir_all(&old_dir).ok();
+            rename(&repo_dir, &old_dir).ok();
+            remove_dir_all(&old_dir).ok();
 
             rename(&partial_dir, &repo_dir).map_err(|_| Error::Fs(FsError::Write))?;
         } else {
-- 
2.43.0


From d217d78fb914ddcce06982877f24b41a9568b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:13 +0000
Subject: [PATCH 27/34] fix: rebuild when a source file that happens to be
 called stuart.toml changes

---
 stuart/src/serve/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index 28ec7fd..e5922a1 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -119,7 +119,7 @@ fn build_watcher(
 
                 println!();
 
-                if p.ends_with("stuart.toml") {
+                if p == Path::new("stuart.toml") {
                     log!(
                         "Detected",
                         "configuration change, please restart the server"
-- 
2.43.0


From 332685adea79e1685cad5985b086ef1bab6f5ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:28 +0000
Subject: [PATCH 28/34] fix: watch directories again whose notifications were
 lost or came late

---
 stuart/src/serve/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stuart/src/serve/mod.rs b/stuart/src/serve/mod.rs
index e5922a1..3dbca45 100644
--- a/stuart/src/serve/mod.rs
+++ b/stuart/src/serve/mod.rs
@@ -15,7 +15,7 @@ use humphrey_ws::{Message, WebsocketStream};
 
 use clap::ArgMatches;
 
-use notify::{raw_watcher, RawEvent, RecursiveMode, Watcher};
+use notify::{raw_watcher, RawEvent, RecommendedWatcher, RecursiveMode, Watcher};
 
 use std::fs::File;
 use std::io::Read;
@@ -89,7 +89,7 @@ pub fn serve(args: ArgMatches) -> Result<(), Box<dyn StuartError>> {
         }
     });
 
-    build_watcher(rx, streams, path, ctx);
+    build_watcher(rx, watcher, streams, path, ctx);
 
     Ok(())
 }
@@ -97,6 +97,7 @@ pub fn serve(args: ArgMatches) -> Result<(), Box<dyn StuartError>> {
 /// Watches for changes to the site, rebuilding and notifying subscribers when necessary.
 fn build_watcher(
     rx: Receiver<RawEvent>,
+    mut watcher: RecommendedWatcher,
     streams: Arc<Mutex<Vec<WebsocketStream>>>,
     path: PathBuf,
     mut ctx: StuartContext,
@@ -138,6 +139,11 @@ fn build_watcher(
                 log!("Detected", "changes, rebuilding");
             }
 
+            // New directories may not be watched yet, or at all if their notifications have been lost.
+            if watcher.watch(&path, RecursiveMode::Recursive).is_err() {
+                error_handler(&(Box::new("failed to watch for changes") as Box<dyn StuartError>));
+            }
+
             if let Err(e) = ctx.build() {
                 error_handler(&e);
             } else {
-- 
2.43.0


From 86c7193cfe05923a0842729fa88cf8d63c327697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:44 +0000
Subject: [PATCH 29/34] fix: skip blocks nested in branches which are not taken

---
 stuart-core/src/functions/mod.rs              |  8 ++++++++
 stuart-core/src/functions/parsers/for.rs      |  5 ++---
 stuart-core/src/functions/parsers/if.rs       | 18 +++++++++++++++++
 .../src/functions/parsers/ifdefined.rs        | 20 ++++++++++++++++++-
 4 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/stuart-core/src/functions/mod.rs b/stuart-core/src/functions/mod.rs
index cd26369..d5c3ae0 100644
--- a/stuart-core/src/functions/mod.rs
+++ b/stuart-core/src/functions/mod.rs
@@ -47,6 +47,14 @@ use humphrey_json::Value;
 
 use std::fmt::Debug;
 
+/// Returns `true` if the function with the given name starts a block, which is finished by `end`.
+pub(crate) fn starts_block(name: &str) -> bool {
+    matches!(
+        name,
+        "begin" | "for" | "ifdefined" | "ifeq" | "ifne" | "ifgt" | "ifge" | "iflt" | "ifle"
+    )
+}
+
 /// Represents a function parser.
 ///
 /// A function parser is an object which is capable of parsing a raw function into an executable function object,
diff --git a/stuart-core/src/functions/parsers/for.rs b/stuart-core/src/functions/parsers/for.rs
index 0b7d866..31d2836 100644
--- a/stuart-core/src/functions/parsers/for.rs
+++ b/stuart-core/src/functions/parsers/for.rs
@@ -1,5 +1,5 @@
 use crate::fs::ParsedContents;
-use crate::functions::{Function, FunctionParser};
+use crate::functions::{starts_block, Function, FunctionParser};
 use crate::parse::{ParseError, RawArgument, RawFunction};
 use crate::process::stack::StackFrame;
 use crate::process::{ProcessError, Scope};
@@ -242,8 +242,7 @@ impl Function for ForFunction {
 
                 match token.as_function().as_ref().map_or("", |f| f.name()) {
                     "end" => depth -= 1,
-                    "begin" | "for" | "ifdefined" | "ifeq" | "ifne" | "ifgt" | "ifge" | "iflt"
-                    | "ifle" => depth += 1,
+                    name if starts_block(name) => depth += 1,
                     _ => (),
                 }
             }
diff --git a/stuart-core/src/functions/parsers/if.rs b/stuart-core/src/functions/parsers/if.rs
index f565a96..0583517 100644
--- a/stuart-core/src/functions/parsers/if.rs
+++ b/stuart-core/src/functions/parsers/if.rs
@@ -66,6 +66,8 @@ macro_rules! if_parsers {
                         let stack_height = scope.stack.len();
                         scope.stack.push(frame);
 
+                        let mut skipped_blocks = 0;
+
                         while scope.stack.len() > stack_height {
                             let token = scope
                                 .tokens
@@ -74,6 +76,22 @@ macro_rules! if_parsers {
 
                             let function_name = token.as_function().map(|f| f.name().to_string());
 
+                            // Blocks nested in a branch which is not taken are skipped as a whole.
+                            if !condition {
+                                match function_name.as_deref() {
+                                    Some(name) if $crate::functions::starts_block(name) => skipped_blocks += 1,
+                                    Some("end") if skipped_blocks > 0 => {
+                                        skipped_blocks -= 1;
+                                        continue;
+                                    }
+                                    _ => (),
+                                }
+
+                                if skipped_blocks > 0 {
+                                    continue;
+                                }
+                            }
+
                             if condition
                                 || ((function_name == Some("end".to_string())
                                     || function_name == Some("else".to_string()))
diff --git a/stuart-core/src/functions/parsers/ifdefined.rs b/stuart-core/src/functions/parsers/ifdefined.rs
index fb8b657..b61b774 100644
--- a/stuart-core/src/functions/parsers/ifdefined.rs
+++ b/stuart-core/src/functions/parsers/ifdefined.rs
@@ -1,4 +1,4 @@
-use crate::functions::{Function, FunctionParser};
+use crate::functions::{starts_block, Function, FunctionParser};
 use crate::parse::{ParseError, RawFunction};
 use crate::process::stack::StackFrame;
 use crate::process::{ProcessError, Scope};
@@ -51,6 +51,8 @@ impl Function for IfDefinedFunction {
         let stack_height = scope.stack.len();
         scope.stack.push(frame);
 
+        let mut skipped_blocks = 0;
+
         while scope.stack.len() > stack_height {
             let token = scope
                 .tokens
@@ -59,6 +61,22 @@ impl Function for IfDefinedFunction {
 
             let function_name = token.as_function().map(|f| f.name().to_string());
 
+            // Blocks nested in a branch which is not taken are skipped as a whole.
+            if !defined {
+                match function_name.as_deref() {
+                    Some(name) if starts_block(name) => skipped_blocks += 1,
+                    Some("end") if skipped_blocks > 0 => {
+                        skipped_blocks -= 1;
+                        continue;
+                    }
+                    _ => (),
+                }
+
+                if skipped_blocks > 0 {
+                    continue;
+                }
+            }
+
             if defined
                 || ((function_name == Some("end".to_string())
                     || function_name == Some("else".to_string()))
-- 
2.43.0


From e8f5b1052716f2c0989bf61b44546bb856ddafbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:23 +0000
Subject: [PATCH 30/34] fix: publish markdown pages called root.md or md.md

---
 stuart-core/src/fs/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index 29859cb..c45bb38 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -399,12 +399,12 @@ impl Node {
         let name = self.name();
         let is_ignored = self.parsed_contents().is_ignored();
 
+        // A markdown page may have the name of a template after having been processed, but is not one.
+        let is_template = (name == "root.html" || name == "md.html")
+            && self.source().extension().map_or(true, |ext| ext != "md");
+
         // Static and temporary files are always saved, whatever they are called.
-        if !is_ignored
-            && (name == "root.html"
-                || name == "md.html"
-                || (!config.save_data_files && name.ends_with(".json")))
-        {
+        if !is_ignored && (is_template || (!config.save_data_files && name.ends_with(".json"))) {
             return None;
         }
 
-- 
2.43.0


From 738c44e87a38bbef201d3204c7e6fcf913c378ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 31/34] fix: do not add an ellipsis to excerpts of complete
 non-ASCII strings

---
 stuart-core/src/functions/parsers/excerpt.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/stuart-core/src/functions/parsers/excerpt.rs b/stuart-core/src/functions/parsers/excerpt.rs
index 224f52a..4503041 100644
--- a/stuart-core/src/functions/parsers/excerpt.rs
+++ b/stuart-core/src/functions/parsers/excerpt.rs
@@ -61,7 +61,6 @@ impl Function for ExcerptFunction {
         let mut chars = string.chars();
         let mut excerpt = String::with_capacity(self.length + 3);
         let mut tag = false;
-        let mut total_chars: usize = 0;
 
         while excerpt.len() < self.length {
             if let Some(ch) = chars.next() {
@@ -72,14 +71,12 @@ impl Function for ExcerptFunction {
                 } else if !tag {
                     excerpt.push(ch);
                 }
-
-                total_chars += 1;
             } else {
                 break;
             }
         }
 
-        if total_chars < string.len() {
+        if !chars.as_str().is_empty() {
             excerpt.push_str("...");
         }
 
-- 
2.43.0


From 4a56ca53277468223205acec947a8e28b9055c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 32/34] fix: do not panic on environment variables which are
 not Unicode

---
 stuart-core/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index d603c01..3930238 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -136,7 +136,15 @@ impl Stuart {
         self.input = Some(input.clone());
 
         let vars = {
-            let mut env = std::env::vars().collect::<Vec<_>>();
+            // Variables may not be valid Unicode, in which case `std::env::vars` would panic.
+            let mut env = std::env::vars_os()
+                .map(|(k, v)| {
+                    (
+                        k.to_string_lossy().to_string(),
+                        v.to_string_lossy().to_string(),
+                    )
+                })
+                .collect::<Vec<_>>();
             env.push(("STUART_ENV".into(), stuart_env));
             env
         };
-- 
2.43.0


From bbcd3827e59f4dfdf95ebb5ec604fa1153ab2d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:54 +0000
Subject: [PATCH 33/34] fix: refuse numbers in data files which JSON cannot
 express

---
 stuart-core/src/fs/mod.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/stuart-core/src/fs/mod.rs b/stuart-core/src/fs/mod.rs
index c45bb38..4387b05 100644
--- a/stuart-core/src/fs/mod.rs
+++ b/stuart-core/src/fs/mod.rs
@@ -221,14 +221,17 @@ impl Node {
                         .map_err(Error::Parse)?,
                 ),
                 Some("json") => ParsedContents::Json(
-                    humphrey_json::from_str(contents_string?).map_err(|_| {
-                        Error::Parse(TracebackError {
-                            path: file.to_path_buf(),
-                            kind: ParseError::InvalidJson,
-                            column: 0,
-                            line: 0,
-                        })
-                    })?,
+                    humphrey_json::from_str(contents_string?)
+                        .ok()
+                        .filter(is_representable)
+                        .ok_or_else(|| {
+                            Error::Parse(TracebackError {
+                                path: file.to_path_buf(),
+                                kind: ParseError::InvalidJson,
+                                column: 0,
+                                line: 0,
+                            })
+                        })?,
                 ),
                 Some(extension) => {
                     let mut result = ParsedContents::None;
@@ -527,3 +530,15 @@ impl Debug for Node {
         }
     }
 }
+
+/// Checks that every number in a JSON value is finite.
+///
+/// Infinities (such as `1e400`) and `NaN` are accepted by the parser, but cannot be written as JSON again.
+fn is_representable(value: &Value) -> bool {
+    match value {
+        Value::Number(number) => number.is_finite(),
+        Value::Array(array) => array.iter().all(is_representable),
+        Value::Object(object) => object.iter().all(|(_, value)| is_representable(value)),
+        _ => true,
+    }
+}
-- 
2.43.0


From 574c29d82f563ac90a1529ba116eeb193962a21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:40 +0000
Subject: [PATCH 34/34] fix: do not let an inherited STUART_ENV hide the
 environment of the build

---
 stuart-core/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stuart-core/src/lib.rs b/stuart-core/src/lib.rs
index 3930238..48bb9e4 100644
--- a/stuart-core/src/lib.rs
+++ b/stuart-core/src/lib.rs
@@ -137,7 +137,9 @@ impl Stuart {
 
         let vars = {
             // Variables may not be valid Unicode, in which case `std::env::vars` would panic.
+            // An inherited `STUART_ENV` must not hide the one which is set below.
             let mut env = std::env::vars_os()
+                .filter(|(k, _)| k != "STUART_ENV")
                 .map(|(k, v)| {
                     (
                         k.to_string_lossy().to_string(),
-- 
2.43.0

