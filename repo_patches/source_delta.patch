From 388d535a08b828d74993fe62510f6a0e75f8cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:31 +0000
Subject: [PATCH 01/30] fix: make ELF section symbols relative to the load
 address

---
 src/symbol.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index 53cbae5..98d5972 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -100,15 +100,20 @@ pub(super) fn add_executable_section_symbols(
     name: &str,
     object: &Object,
 ) -> Symbols {
+    let load_address = object.load_address();
     let object = goblin::Object::parse(object.data());
     match object {
         Ok(goblin::Object::Elf(elf)) => {
             for header in elf.section_headers {
                 if header.is_executable() {
+                    // Like all the other addresses this one is relative to the load address
+                    let rva = match header.sh_addr.checked_sub(load_address) {
+                        Some(rva) => rva as u32,
+                        None => continue,
+                    };
                     let name = if name.is_empty() { "unknown" } else { name };
                     let section_name = elf.shdr_strtab.get_at(header.sh_name).unwrap_or("unknown");
                     let symbol_name = format!("<{section_name} ELF section in {name}>");
-                    let rva = header.sh_addr as u32;
                     syms.entry(rva).or_insert(Symbol {
                         name: symbol_name,
                         is_public: true,
-- 
2.43.0


From 1f85885e7cd6e0e260a8918a92c0d3287b709627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:36 +0000
Subject: [PATCH 02/30] fix: write the anonymous namespace of MSVC-mangled
 names as everywhere else

---
 src/collector.rs      | 4 ++--
 src/inline_origins.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collector.rs b/src/collector.rs
index 4cca6f2..cd2da5d 100644
--- a/src/collector.rs
+++ b/src/collector.rs
@@ -60,7 +60,7 @@ impl Collector {
         }
 
         match name.demangle(demangle_options()) {
-            Some(demangled) => demangled,
+            Some(demangled) => common::normalize_anonymous_namespace(&demangled),
             None => {
                 let aname = name.as_str();
                 warn!("Didn't manage to demangle {name:?}");
@@ -79,7 +79,7 @@ impl Collector {
         let name = common::fix_symbol_name(&name);
 
         match name.demangle(demangle_options()) {
-            Some(demangled) => demangled,
+            Some(demangled) => common::normalize_anonymous_namespace(&demangled),
             None => {
                 warn!("Didn't manage to demangle {name}");
                 name.to_string()
diff --git a/src/inline_origins.rs b/src/inline_origins.rs
index 5db50c8..ae70f28 100644
--- a/src/inline_origins.rs
+++ b/src/inline_origins.rs
@@ -45,7 +45,7 @@ impl<'a> InlineOrigins<'a> {
         }
 
         match name.demangle(common::demangle_options()) {
-            Some(demangled) => demangled,
+            Some(demangled) => common::normalize_anonymous_namespace(&demangled),
             None => {
                 let aname = name.as_str();
                 warn!("Didn't manage to demangle {name:?}");
-- 
2.43.0


From 26e399dc10f01a86f8e2164cec494374accf0090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:03 +0000
Subject: [PATCH 03/30] fix: emit the line of an inlinee again after a gap in
 its ranges

---
 src/collector.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/collector.rs b/src/collector.rs
index cd2da5d..7dd3ed4 100644
--- a/src/collector.rs
+++ b/src/collector.rs
@@ -226,6 +226,7 @@ impl Collector {
         let mut next_inline = inline_iter.next();
 
         let mut prev_line_info = None;
+        let mut prev_line_end = None;
 
         // Iterate over the line records.
         while let Some(line) = next_line.take() {
@@ -235,6 +236,12 @@ impl Collector {
             let file_id = source.get_true_id(file_id);
             let line_no = line.line as u32;
 
+            // The code between two non-adjacent line records can belong to another function (e.g.
+            // the caller of an inlinee with multiple ranges), so the line must be emitted again.
+            if prev_line_end != Some(line_range_start) {
+                prev_line_info = None;
+            }
+
             // The incoming line record can be a "self line", or a "call line", or even a mixture.
             //
             // Examples:
@@ -325,6 +332,8 @@ impl Collector {
                 }
             }
 
+            prev_line_end = Some(current_address);
+
             // Advance the line iterator.
             next_line = line_iter.next();
 
-- 
2.43.0


From cb45d9a702ed327fdf8f3d603585e6e00523718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:55 +0000
Subject: [PATCH 04/30] fix: refuse line breaks in --extra-info

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bf774e0..779335c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -250,7 +250,7 @@ fn to_vec(values: clap::parser::ValuesRef<'_, String>) -> Vec<&str> {
 }
 
 fn get_extra_info(matches: &clap::ArgMatches) {
-    static INFO_LINE_RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"^[A-Z_]+ .*").unwrap());
+    static INFO_LINE_RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"^[A-Z_]+ .*$").unwrap());
 
     let mut extra_info: Vec<String> = matches.get_many::<String>("extra_info").map(|values| {
         values
-- 
2.43.0


From eb8f09430f68010557b9e23ff2af300267469101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:19 +0000
Subject: [PATCH 05/30] fix: do not deadlock on the job queue when dumping
 several files

---
 src/dumper.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 8466b68..5a81183 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -3,7 +3,7 @@
 // http://opensource.org/licenses/MIT>, at your option. This file may not be
 // copied, modified, or distributed except according to those terms.
 
-use crossbeam::channel::{bounded, Receiver, Sender};
+use crossbeam::channel::{unbounded, Receiver, Sender};
 use hashbrown::HashMap;
 use log::{error, info};
 use std::fmt;
@@ -462,10 +462,11 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
     .map(Arc::new);
     let arch = Arch::from_str(config.arch)?;
     let results = Arc::new(Mutex::new(HashMap::default()));
-    let num_jobs = config.num_jobs.min(filenames.len());
+    let num_jobs = config.num_jobs.min(filenames.len()).max(1);
     let counter = Arc::new(AtomicUsize::new(filenames.len()));
 
-    let (sender, receiver) = bounded(num_jobs + 1);
+    // The consumers send jobs too, so with a bounded queue they could all be waiting for some room
+    let (sender, receiver) = unbounded();
 
     let mut receivers = Vec::with_capacity(num_jobs);
     for i in 0..num_jobs {
-- 
2.43.0


From 9811ad1a281cd46b33d6e658f2d5d6e4aba78931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:24 +0000
Subject: [PATCH 06/30] fix: decrement the counter of pending files atomically

---
 src/dumper.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 5a81183..0710678 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -432,7 +432,7 @@ fn consumer(
             }
         }
 
-        if counter.load(Ordering::SeqCst) == 1 {
+        if counter.fetch_sub(1, Ordering::SeqCst) == 1 {
             // it was the last file: so we just have to add jobs to dump & store
             // and then poison the queue
             let mut results = results.lock().unwrap();
@@ -444,8 +444,6 @@ fn consumer(
                 check_cfi,
                 collect_inlines,
             )?;
-        } else {
-            counter.fetch_sub(1, Ordering::SeqCst);
         }
     }
 
-- 
2.43.0


From e70f12ea8a9c1c8dd254eb8a266d034a447fc54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:55 +0000
Subject: [PATCH 07/30] fix: report failures when dumping several files instead
 of hanging or ignoring them

---
 src/dumper.rs | 76 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 27 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 0710678..845adcc 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -8,6 +8,7 @@ use hashbrown::HashMap;
 use log::{error, info};
 use std::fmt;
 use std::fs;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::path::{Path, PathBuf};
 use std::str::FromStr;
 use std::sync::atomic::{AtomicUsize, Ordering};
@@ -353,13 +354,14 @@ fn send_store_jobs(
     sender: &Sender<Option<JobItem>>,
     results: &mut HashMap<String, ObjectInfo>,
     num_threads: usize,
-    output: Output,
+    output: &Output,
     check_cfi: bool,
     collect_inlines: bool,
 ) -> common::Result<()> {
+    let mut res = Ok(());
     if results.len() == 1 {
         let (_, d) = results.drain().take(1).next().unwrap();
-        self::store(&output, check_cfi, d)?;
+        res = run_job(|| self::store(output, check_cfi, d));
     } else {
         for (_, d) in results.drain() {
             sender
@@ -374,7 +376,13 @@ fn send_store_jobs(
     }
 
     poison_queue(sender, num_threads);
-    Ok(())
+    res
+}
+
+/// Run a part of a job: a failure must not prevent the other jobs from being done.
+fn run_job<T>(f: impl FnOnce() -> common::Result<T>) -> common::Result<T> {
+    // The panic itself has already been logged by the panic hook
+    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| Err(anyhow::anyhow!("A job panicked")))
 }
 
 fn poison_queue(sender: &Sender<Option<JobItem>>, num_threads: usize) {
@@ -394,10 +402,11 @@ fn consumer(
     num_threads: usize,
     output: Output,
     check_cfi: bool,
-) -> common::Result<()> {
+) -> Vec<anyhow::Error> {
+    let mut errors = Vec::new();
     while let Ok(job) = receiver.recv() {
         if job.is_none() {
-            return Ok(());
+            break;
         }
 
         let JobItem {
@@ -409,25 +418,34 @@ fn consumer(
 
         match typ {
             JobType::Get => {
-                let path = PathBuf::from(file);
-                let filename = utils::get_filename(&path);
-                let buf = utils::read_file(&path);
-
-                let info =
-                    get_object_info(buf, &path, &filename, mapping, arch, None, collect_inlines)?;
-
-                let mut results = results.lock().unwrap();
-                let info = if let Some(prev) = results.remove(info.get_debug_id()) {
-                    ObjectInfo::merge(info, prev).inspect_err(|_e| {
-                        poison_queue(&sender, num_threads);
-                    })?
-                } else {
-                    info
-                };
-                results.insert(info.get_debug_id().to_string(), info);
+                let res = run_job(|| {
+                    let path = PathBuf::from(file);
+                    let filename = utils::get_filename(&path);
+                    let buf = utils::read_file(&path);
+
+                    let info = get_object_info(
+                        buf,
+                        &path,
+                        &filename,
+                        mapping,
+                        arch,
+                        None,
+                        collect_inlines,
+                    )?;
+
+                    let mut results = results.lock().unwrap();
+                    let info = if let Some(prev) = results.remove(info.get_debug_id()) {
+                        ObjectInfo::merge(info, prev)?
+                    } else {
+                        info
+                    };
+                    results.insert(info.get_debug_id().to_string(), info);
+                    Ok(())
+                });
+                errors.extend(res.err());
             }
             JobType::Dump(d) => {
-                self::store(&output, check_cfi, d)?;
+                errors.extend(run_job(|| self::store(&output, check_cfi, d)).err());
                 continue;
             }
         }
@@ -436,18 +454,19 @@ fn consumer(
             // it was the last file: so we just have to add jobs to dump & store
             // and then poison the queue
             let mut results = results.lock().unwrap();
-            send_store_jobs(
+            let res = send_store_jobs(
                 &sender,
                 &mut results,
                 num_threads,
-                output.clone(),
+                &output,
                 check_cfi,
                 collect_inlines,
-            )?;
+            );
+            errors.extend(res.err());
         }
     }
 
-    Ok(())
+    errors
 }
 
 pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()> {
@@ -499,11 +518,14 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
             .unwrap();
     }
 
+    let mut failures = 0;
     for receiver in receivers {
-        if let Err(e) = receiver.join().unwrap() {
+        for e in receiver.join().unwrap() {
             error!("{e}");
+            failures += 1;
         }
     }
 
+    anyhow::ensure!(failures == 0, "{failures} job(s) failed");
     Ok(())
 }
-- 
2.43.0


From 5fc4d64e23eb2d121d5fbe97f5c335de1e202da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:33 +0000
Subject: [PATCH 08/30] fix: merge the files of a module in the order of the
 command line

---
 src/dumper.rs | 105 ++++++++++++++++++++++++++------------------------
 1 file changed, 55 insertions(+), 50 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 845adcc..b881be0 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -344,39 +344,61 @@ enum JobType {
 }
 
 struct JobItem {
+    index: usize,
     file: String,
     typ: JobType,
     mapping: Option<Arc<PathMappings>>,
     collect_inlines: bool,
 }
 
+/// Merge the files of a same module in the order of the command line, so that the result doesn't
+/// depend on the order in which the files have been processed.
+fn merge_results(mut results: Vec<(usize, ObjectInfo)>) -> common::Result<Vec<ObjectInfo>> {
+    results.sort_by_key(|(index, _)| *index);
+
+    let mut ids = Vec::new();
+    let mut modules: HashMap<String, ObjectInfo> = HashMap::default();
+    for (_, info) in results {
+        let id = info.get_debug_id().to_string();
+        let info = if let Some(prev) = modules.remove(&id) {
+            ObjectInfo::merge(info, prev)?
+        } else {
+            ids.push(id.clone());
+            info
+        };
+        modules.insert(id, info);
+    }
+
+    Ok(ids
+        .into_iter()
+        .filter_map(|id| modules.remove(&id))
+        .collect())
+}
+
 fn send_store_jobs(
     sender: &Sender<Option<JobItem>>,
-    results: &mut HashMap<String, ObjectInfo>,
-    num_threads: usize,
+    results: Vec<(usize, ObjectInfo)>,
     output: &Output,
     check_cfi: bool,
     collect_inlines: bool,
 ) -> common::Result<()> {
-    let mut res = Ok(());
-    if results.len() == 1 {
-        let (_, d) = results.drain().take(1).next().unwrap();
-        res = run_job(|| self::store(output, check_cfi, d));
-    } else {
-        for (_, d) in results.drain() {
-            sender
-                .send(Some(JobItem {
-                    file: "".to_string(),
-                    typ: JobType::Dump(d),
-                    mapping: None,
-                    collect_inlines,
-                }))
-                .unwrap();
-        }
+    let mut modules = merge_results(results)?;
+    if modules.len() == 1 {
+        return self::store(output, check_cfi, modules.remove(0));
     }
 
-    poison_queue(sender, num_threads);
-    res
+    for (index, d) in modules.into_iter().enumerate() {
+        sender
+            .send(Some(JobItem {
+                index,
+                file: "".to_string(),
+                typ: JobType::Dump(d),
+                mapping: None,
+                collect_inlines,
+            }))
+            .unwrap();
+    }
+    Ok(())
 }
 
 /// Run a part of a job: a failure must not prevent the other jobs from being done.
@@ -397,7 +419,7 @@ fn consumer(
     arch: Arch,
     sender: Sender<Option<JobItem>>,
     receiver: Receiver<Option<JobItem>>,
-    results: Arc<Mutex<HashMap<String, ObjectInfo>>>,
+    results: Arc<Mutex<Vec<(usize, ObjectInfo)>>>,
     counter: Arc<AtomicUsize>,
     num_threads: usize,
     output: Output,
@@ -410,6 +432,7 @@ fn consumer(
         }
 
         let JobItem {
+            index,
             file,
             typ,
             mapping,
@@ -423,26 +446,12 @@ fn consumer(
                     let filename = utils::get_filename(&path);
                     let buf = utils::read_file(&path);
 
-                    let info = get_object_info(
-                        buf,
-                        &path,
-                        &filename,
-                        mapping,
-                        arch,
-                        None,
-                        collect_inlines,
-                    )?;
-
-                    let mut results = results.lock().unwrap();
-                    let info = if let Some(prev) = results.remove(info.get_debug_id()) {
-                        ObjectInfo::merge(info, prev)?
-                    } else {
-                        info
-                    };
-                    results.insert(info.get_debug_id().to_string(), info);
-                    Ok(())
+                    get_object_info(buf, &path, &filename, mapping, arch, None, collect_inlines)
                 });
-                errors.extend(res.err());
+                match res {
+                    Ok(info) => results.lock().unwrap().push((index, info)),
+                    Err(e) => errors.push(e),
+                }
             }
             JobType::Dump(d) => {
                 errors.extend(run_job(|| self::store(&output, check_cfi, d)).err());
@@ -453,16 +462,11 @@ fn consumer(
         if counter.fetch_sub(1, Ordering::SeqCst) == 1 {
             // it was the last file: so we just have to add jobs to dump & store
             // and then poison the queue
-            let mut results = results.lock().unwrap();
-            let res = send_store_jobs(
-                &sender,
-                &mut results,
-                num_threads,
-                &output,
-                check_cfi,
-                collect_inlines,
-            );
+            let results = std::mem::take(&mut *results.lock().unwrap());
+            let res =
+                run_job(|| send_store_jobs(&sender, results, &output, check_cfi, collect_inlines));
             errors.extend(res.err());
+            poison_queue(&sender, num_threads);
         }
     }
 
@@ -478,7 +482,7 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
     )?
     .map(Arc::new);
     let arch = Arch::from_str(config.arch)?;
-    let results = Arc::new(Mutex::new(HashMap::default()));
+    let results = Arc::new(Mutex::new(Vec::new()));
     let num_jobs = config.num_jobs.min(filenames.len()).max(1);
     let counter = Arc::new(AtomicUsize::new(filenames.len()));
 
@@ -507,9 +511,10 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
         receivers.push(t);
     }
 
-    for f in filenames {
+    for (index, f) in filenames.iter().enumerate() {
         sender
             .send(Some(JobItem {
+                index,
                 file: f.to_string(),
                 typ: JobType::Get,
                 mapping: file_mapping.clone(),
-- 
2.43.0


From 76c65da9909d4cc7f75d752e3f79d3003aaaa8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:01 +0000
Subject: [PATCH 09/30] fix: remap the file ids of merged files by their final
 ids

---
 src/source.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/source.rs b/src/source.rs
index f80105a..86c9c07 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -29,7 +29,6 @@ pub struct SourceFiles {
 
 #[derive(Debug, Default)]
 pub struct SourceMap {
-    ref_to_id: HashMap<String, u32>,
     id_to_ref: Vec<String>,
 }
 
@@ -148,7 +147,6 @@ impl SourceFiles {
 
     pub(super) fn get_mapping(self) -> SourceMap {
         SourceMap {
-            ref_to_id: self.ref_to_id,
             id_to_ref: self.id_to_ref,
         }
     }
@@ -168,25 +166,27 @@ impl SourceMap {
         // This one has no FUNC
         if self.id_to_ref.is_empty() {
             // Just steal the data from the other
-            std::mem::swap(&mut self.ref_to_id, &mut other.ref_to_id);
             std::mem::swap(&mut self.id_to_ref, &mut other.id_to_ref);
             return None;
         }
 
+        let mut ref_to_id: HashMap<String, u32> = HashMap::with_capacity(self.id_to_ref.len());
+        for (id, path) in self.id_to_ref.iter().enumerate() {
+            ref_to_id.entry(path.clone()).or_insert(id as u32);
+        }
+
         // will contain the new ids
-        let mut remapping = vec![0; other.id_to_ref.len()];
+        let mut remapping = Vec::with_capacity(other.id_to_ref.len());
         self.id_to_ref.reserve(other.id_to_ref.len());
 
-        for (path, id) in other.ref_to_id.iter() {
-            let id = *id as usize;
-            if let Some(an_id) = self.ref_to_id.get(path) {
-                // self has already this path so map the id to the existing one
-                remapping[id] = *an_id;
-            } else {
+        for path in other.id_to_ref.drain(..) {
+            // if self has already this path then map the id to the existing one
+            let id = *ref_to_id.entry(path).or_insert_with_key(|path| {
                 let new_id = self.id_to_ref.len() as u32;
-                remapping[id] = new_id;
-                self.id_to_ref.push(other.id_to_ref[id].clone());
-            }
+                self.id_to_ref.push(path.clone());
+                new_id
+            });
+            remapping.push(id);
         }
 
         Some(remapping)
-- 
2.43.0


From 10a2f7ba1cb058787ef44442bd9550ec4d4e02d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:33 +0000
Subject: [PATCH 10/30] fix: don't cache source files by the address of
 temporary strings

---
 src/source.rs | 57 +++++++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/source.rs b/src/source.rs
index 86c9c07..cb03588 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -5,6 +5,7 @@
 
 use hashbrown::{hash_map, HashMap};
 use log::error;
+use std::borrow::Cow;
 use std::fs;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -94,41 +95,47 @@ impl SourceFiles {
     pub(super) fn get_id(&mut self, compilation_dir: &[u8], file: &FileInfo) -> u32 {
         // A lot of paths are a slice on the same string in the debug file
         // so just use a cache based on the string pointers.
-        let cache_key = (
-            Self::cast_ptr(compilation_dir),
-            Self::cast_ptr(file.dir_str().as_bytes()),
-            Self::cast_ptr(file.name_str().as_bytes()),
-        );
+        // Strings which aren't in the debug file (because they're not valid utf-8) have no
+        // permanent address, so they mustn't be in the cache.
+        let cache_key = match (file.dir_str(), file.name_str()) {
+            (Cow::Borrowed(dir), Cow::Borrowed(name)) => Some((
+                Self::cast_ptr(compilation_dir),
+                Self::cast_ptr(dir.as_bytes()),
+                Self::cast_ptr(name.as_bytes()),
+            )),
+            _ => None,
+        };
+
+        if let Some(id) = cache_key.and_then(|key| self.cache.get(&key)) {
+            return *id;
+        }
 
-        match self.cache.entry(cache_key) {
+        let path = Self::get_path(self.platform, self.canonicalize, compilation_dir, file);
+        let id = match self.ref_to_id.entry(path.clone()) {
             hash_map::Entry::Occupied(e) => *e.get(),
             hash_map::Entry::Vacant(e) => {
-                let path = Self::get_path(self.platform, self.canonicalize, compilation_dir, file);
-                let id = match self.ref_to_id.entry(path.clone()) {
-                    hash_map::Entry::Occupied(e) => *e.get(),
-                    hash_map::Entry::Vacant(e) => {
-                        let id = self.fake_id_to_ref.len() as u32;
-                        let new_path = if let Some(mapping) = self.mapping.as_ref() {
-                            match mapping.map(&path) {
-                                Ok(p) => p,
-                                Err(e) => {
-                                    error!("Mapping error: {e}");
-                                    None
-                                }
-                            }
-                        } else {
+                let id = self.fake_id_to_ref.len() as u32;
+                let new_path = if let Some(mapping) = self.mapping.as_ref() {
+                    match mapping.map(&path) {
+                        Ok(p) => p,
+                        Err(e) => {
+                            error!("Mapping error: {e}");
                             None
-                        };
-                        let path = new_path.unwrap_or(path);
-                        e.insert(id);
-                        self.fake_id_to_ref.push((None, path));
-                        id
+                        }
                     }
+                } else {
+                    None
                 };
+                let path = new_path.unwrap_or(path);
                 e.insert(id);
+                self.fake_id_to_ref.push((None, path));
                 id
             }
+        };
+        if let Some(key) = cache_key {
+            self.cache.insert(key, id);
         }
+        id
     }
 
     // Some file_ids are not consumed because they correspond to some inlinee stuff
-- 
2.43.0


From 0bfb33418f42c5845c8feca8664b83d3f755f784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:00 +0000
Subject: [PATCH 11/30] fix: report errors when writing the end of the symbols

---
 src/object_info.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/object_info.rs b/src/object_info.rs
index 8a0cc5e..fe11609 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -293,6 +293,8 @@ impl ObjectInfo {
 
     pub fn dump<W: Write>(&self, mut writer: W) -> common::Result<()> {
         write!(writer, "{self}")?;
+        // Errors are ignored when a buffered writer is dropped
+        writer.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From fd37145d178c5a292f7425813941b5bccf90baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:06 +0000
Subject: [PATCH 12/30] fix: ignore a .gnu_debugdata section outside of the
 file

---
 src/symbol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index 98d5972..ebaddc0 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -174,7 +174,7 @@ pub(super) fn get_compressed_minidebuginfo(object: &Object) -> Option<Vec<u8>> {
             if let Some(section_name) = elf.shdr_strtab.get_at(header.sh_name) {
                 if section_name == ".gnu_debugdata" {
                     let (start, length) = (header.sh_offset as usize, header.sh_size as usize);
-                    let mut buf: &[u8] = &data[start..(start + length)];
+                    let mut buf: &[u8] = data.get(start..start.checked_add(length)?)?;
                     let mut out: Vec<u8> = Vec::new();
                     lzma_rs::xz_decompress(&mut buf, &mut out).ok()?;
                     return Some(out);
-- 
2.43.0


From 985e6e39937848ee29e80287e595ad03e7144984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:11 +0000
Subject: [PATCH 13/30] fix: accept Windows symbol names starting with a
 non-ASCII character

---
 src/symbol.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index ebaddc0..4862809 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -227,22 +227,20 @@ impl ParsedWinFuncName {
         }
 
         // Parse the other three.
-        if !c_decorated_name.is_empty() {
-            if let ("@" | "_", rest) = c_decorated_name.split_at(1) {
-                if let Some((name, param_size)) = rest.rsplit_once('@') {
-                    if let Ok(param_size) = param_size.parse::<u32>() {
-                        // __stdcall or __fastcall
-                        return Self {
-                            name: name.to_string(),
-                            param_size: Some(param_size),
-                        };
-                    }
-                }
-                if &c_decorated_name[0..1] == "_" {
-                    // __cdecl
-                    return Self::name_only(rest.to_string());
+        if let Some(rest) = c_decorated_name.strip_prefix(['@', '_']) {
+            if let Some((name, param_size)) = rest.rsplit_once('@') {
+                if let Ok(param_size) = param_size.parse::<u32>() {
+                    // __stdcall or __fastcall
+                    return Self {
+                        name: name.to_string(),
+                        param_size: Some(param_size),
+                    };
                 }
             }
+            if c_decorated_name.starts_with('_') {
+                // __cdecl
+                return Self::name_only(rest.to_string());
+            }
         }
 
         Self::name_only(c_decorated_name.to_string())
-- 
2.43.0


From c6ef6c0114a351c0ffda8cb5dd66cbacc54ab4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:16 +0000
Subject: [PATCH 14/30] fix: don't overflow on symbols reaching beyond the
 32-bit address space

---
 src/symbol.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index 4862809..eed8c8e 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -33,7 +33,7 @@ pub trait ContainsSymbol {
 impl ContainsSymbol for Symbols {
     fn is_inside_symbol(&self, rva: u32) -> bool {
         let last = self.range((Included(0), Excluded(rva))).next_back();
-        last.is_some_and(|last| rva < (last.1.rva + last.1.len))
+        last.is_some_and(|last| rva - last.1.rva < last.1.len)
     }
 }
 
@@ -142,7 +142,10 @@ fn append_dummy_symbol_pe_pdb(mut syms: Symbols, name: &str) -> Symbols {
         return syms;
     };
 
-    let rva = if len == 0 { rva + 1 } else { rva + len };
+    let rva = match rva.checked_add(len.max(1)) {
+        Some(rva) => rva,
+        None => return syms,
+    };
 
     let name = if name.is_empty() {
         String::from("<unknown>")
-- 
2.43.0


From 32a6e95c245ef7bddbcb2f14040479bdcb11a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:42 +0000
Subject: [PATCH 15/30] fix: write names with control characters or without any
 character as valid records

---
 src/common.rs      | 16 ++++++++++++++++
 src/object_info.rs | 12 ++++--------
 src/symbol.rs      |  6 ++++--
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 9cf3402..b04994b 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -5,6 +5,7 @@
 
 use once_cell::sync::{Lazy, OnceCell};
 use regex::Regex;
+use std::borrow::Cow;
 use std::env::consts::ARCH;
 use std::result;
 use symbolic::common::{Arch, Name};
@@ -40,6 +41,21 @@ pub(crate) fn normalize_anonymous_namespace(text: &str) -> String {
     String::from(&fixed)
 }
 
+/// Make a name suitable for a record in a symbol file: the records are lines, so remove control
+/// characters such as \n, and don't leave the name out.
+pub(crate) fn sanitize_name(name: &str) -> Cow<'_, str> {
+    let name = if name.contains(|c: char| c.is_ascii_control()) {
+        Cow::Owned(name.replace(|c: char| c.is_ascii_control(), ""))
+    } else {
+        Cow::Borrowed(name)
+    };
+    if name.trim().is_empty() {
+        Cow::Borrowed("<name omitted>")
+    } else {
+        name
+    }
+}
+
 pub(crate) fn fix_symbol_name<'a>(name: &'a Name<'a>) -> Name<'a> {
     static COMPILER_NNN: Lazy<Regex> = Lazy::new(|| {
         Regex::new(
diff --git a/src/object_info.rs b/src/object_info.rs
index fe11609..cff29af 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -61,15 +61,11 @@ impl Display for ObjectInfo {
         }
 
         for (n, file_name) in self.files.get_mapping().iter().enumerate() {
-            writeln!(f, "FILE {n} {file_name}")?;
+            writeln!(f, "FILE {n} {}", common::sanitize_name(file_name))?;
         }
 
         for (n, function_name) in self.inline_origins.iter().enumerate() {
-            let function_name = if function_name.trim().is_empty() {
-                "<name omitted>"
-            } else {
-                function_name
-            };
+            let function_name = common::sanitize_name(function_name);
             writeln!(f, "INLINE_ORIGIN {n} {function_name}")?;
         }
 
@@ -171,8 +167,8 @@ impl ObjectInfo {
             symbols,
             files: source.get_mapping(),
             inline_origins: inline_origins.get_list(),
-            file_name: Self::file_name_only(file_name).to_string(),
-            pe_name: pe_file_name.map(ToOwned::to_owned),
+            file_name: common::sanitize_name(Self::file_name_only(file_name)).into_owned(),
+            pe_name: pe_file_name.map(|name| common::sanitize_name(name).into_owned()),
             cpu,
             debug_id,
             code_id,
diff --git a/src/symbol.rs b/src/symbol.rs
index eed8c8e..c5b5072 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -8,6 +8,7 @@ use std::fmt::{Display, Formatter};
 use std::ops::Bound::{Excluded, Included};
 use symbolic::debuginfo::Object;
 
+use crate::common::sanitize_name;
 use crate::line::Lines;
 
 const PDB_MAGIC: u64 = 7381245236781214029;
@@ -39,6 +40,7 @@ impl ContainsSymbol for Symbols {
 
 impl Display for Symbol {
     fn fmt(&self, f: &mut Formatter) -> std::fmt::Result {
+        let name = sanitize_name(&self.name);
         if self.is_public {
             writeln!(
                 f,
@@ -46,7 +48,7 @@ impl Display for Symbol {
                 if self.is_multiple { "m " } else { "" },
                 self.rva,
                 self.parameter_size,
-                self.name,
+                name,
             )?;
         } else {
             writeln!(
@@ -56,7 +58,7 @@ impl Display for Symbol {
                 self.rva,
                 self.len,
                 self.parameter_size,
-                self.name,
+                name,
             )?;
 
             write!(f, "{}", self.source)?;
-- 
2.43.0


From 63280a46800d2c9f087de577c49aa3390a1cd764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:20 +0000
Subject: [PATCH 16/30] fix: find members of cabinets with a directory and of
 cabinets without extension

---
 src/utils.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 67da975..75ce467 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -139,7 +139,7 @@ pub fn read_cabinet(buf: Vec<u8>, path: PathBuf) -> Option<Vec<u8>> {
 }
 
 fn get_corrected_path(path: PathBuf) -> PathBuf {
-    let e = path.extension().unwrap().to_str().unwrap();
+    let e = path.extension().and_then(|e| e.to_str()).unwrap_or("");
     if e.starts_with("pd") {
         path.with_extension("pdb")
     } else if e.starts_with("dl") {
@@ -160,8 +160,9 @@ fn get_cabinet_files(cab: &Cabinet<Cursor<&Vec<u8>>>, path: PathBuf) -> Option<(
     for folder in cab.folder_entries() {
         for file in folder.file_entries() {
             let file_size = file.uncompressed_size() as usize;
-            let path = PathBuf::from(file.name());
-            if path.file_name().unwrap() == file_name {
+            // The names in a cabinet are Windows paths
+            let name = file.name().rsplit(['\\', '/']).next().unwrap();
+            if name == file_name {
                 return Some((file.name().to_string(), file_size));
             }
         }
-- 
2.43.0


From fbf49e1db51410e5813174145a57bd841684d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:25 +0000
Subject: [PATCH 17/30] fix: report errors in damaged fat files instead of
 panicking

---
 src/mac.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mac.rs b/src/mac.rs
index 76b5e10..1c0f6e7 100644
--- a/src/mac.rs
+++ b/src/mac.rs
@@ -25,7 +25,7 @@ impl ObjectInfo {
         // and if several then we use arch (by default it's compile-time arch).
         let archive = Archive::parse(buf)?;
         let object = if archive.object_count() == 1 {
-            archive.object_by_index(0).unwrap()
+            archive.object_by_index(0)?
         } else {
             archive
                 .objects()
@@ -58,8 +58,8 @@ pub fn print_macho_architectures(buf: &[u8], file_name: String) -> common::Resul
     let archive = Archive::parse(buf)?;
     let archs = archive
         .objects()
-        .map(|o| o.unwrap().arch().name())
-        .collect::<Vec<_>>();
+        .map(|o| o.map(|o| o.arch().name()))
+        .collect::<Result<Vec<_>, _>>()?;
     println!(
         "{} contains the following architecture{}:",
         file_name,
-- 
2.43.0


From c77309cba0323268ef9bd484793b4adcab73f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:24 +0000
Subject: [PATCH 18/30] fix: only combine a PE with a PDB having its debug id,
 and look for it in CWD

---
 src/windows/utils.rs | 67 ++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 27 deletions(-)

diff --git a/src/windows/utils.rs b/src/windows/utils.rs
index 57a1b93..191517f 100644
--- a/src/windows/utils.rs
+++ b/src/windows/utils.rs
@@ -4,36 +4,47 @@
 // copied, modified, or distributed except according to those terms.
 
 use std::path::Path;
+#[cfg(feature = "http")]
+use symbolic::debuginfo::pdb::PdbObject;
 use symbolic::{common::DebugId, debuginfo::pe::PeObject};
 
 #[cfg(feature = "http")]
 use crate::cache::{self, SymbolServer};
 use crate::utils;
 
+/// Read a file which may be the companion of the dumped one: not being readable isn't an error.
+fn read_companion(path: &Path) -> Option<Vec<u8>> {
+    let buf = std::fs::read(path).ok()?;
+    utils::read_cabinet(buf, path.to_path_buf())
+}
+
+#[cfg(feature = "http")]
+fn has_debug_id(buf: &[u8], debug_id: &DebugId) -> bool {
+    PdbObject::parse(buf).is_ok_and(|pdb| &pdb.debug_id() == debug_id)
+}
+
 #[cfg(feature = "http")]
-fn try_to_find_pdb(path: &Path, pdb_filename: &str) -> Option<Vec<u8>> {
-    // Just check that the file is in the same directory as the PE one
+fn try_to_find_pdb(path: &Path, pdb_path: &Path, debug_id: &DebugId) -> Option<Vec<u8>> {
+    let pdb_filename = pdb_path.file_name()?;
+    // Check that the file is in the same directory as the PE one
     let pdb = path.with_file_name(pdb_filename);
     let pdb_cab = pdb.with_extension("pd_");
 
-    for pdb in vec![pdb, pdb_cab].into_iter() {
-        if pdb.is_file() {
-            return Some(utils::read_file(pdb));
-        }
-    }
-
-    // We try in CWD
-    let mut pdb = std::env::current_dir().expect("Unable to get the current working directory");
-    pdb.set_file_name(pdb_filename);
-    if pdb.is_file() {
-        Some(utils::read_file(pdb))
-    } else {
-        None
-    }
+    // And then we try in CWD
+    let candidates = [pdb_path, &pdb, &pdb_cab, Path::new(pdb_filename)];
+    candidates
+        .into_iter()
+        .filter(|pdb| pdb.is_file())
+        .filter_map(|pdb| read_companion(pdb))
+        .find(|buf| has_debug_id(buf, debug_id))
 }
 
 #[cfg(feature = "http")]
-fn os_specific_try_to_find_pdb(path: &Path, pdb_filename: &str) -> (Option<Vec<u8>>, String) {
+fn os_specific_try_to_find_pdb(
+    path: &Path,
+    pdb_filename: &str,
+    debug_id: &DebugId,
+) -> (Option<Vec<u8>>, String) {
     // We may have gotten either an OS native path, or a Windows path.
     // On Windows, they're both the same. On Unix, they are different, and in that case,
     // we change backslashes to forward slashes for `file_name()` to do its job.
@@ -43,16 +54,13 @@ fn os_specific_try_to_find_pdb(path: &Path, pdb_filename: &str) -> (Option<Vec<u
     let pdb_path = Path::new(&pdb_filename);
     if let Some(file_name) = pdb_path.file_name() {
         let pdb_name = file_name.to_str().unwrap().to_string();
-        if pdb_path.is_file() {
-            (Some(utils::read_file(pdb_path)), pdb_name)
-        } else {
-            (try_to_find_pdb(path, &pdb_name), pdb_name)
-        }
+        (try_to_find_pdb(path, pdb_path, debug_id), pdb_name)
     } else {
         (None, "".to_string())
     }
 }
 
+/// Tries to find the PDB file for a PE object: only a file with a matching debug ID is used.
 #[cfg(feature = "http")]
 pub fn get_pe_pdb_buf<'a>(
     path: &Path,
@@ -63,7 +71,8 @@ pub fn get_pe_pdb_buf<'a>(
         .unwrap_or_else(|_| panic!("Unable to parse the PE file {}", path.to_str().unwrap()));
     if let Some(pdb_filename) = pe.debug_file_name() {
         let pdb_filename = pdb_filename.into_owned();
-        let (pdb, pdb_name) = os_specific_try_to_find_pdb(path, &pdb_filename);
+        let debug_id = pe.debug_id();
+        let (pdb, pdb_name) = os_specific_try_to_find_pdb(path, &pdb_filename, &debug_id);
         if pdb_name.is_empty() {
             log::warn!("Invalid pdb filename in PE file: \"{pdb_filename}\"");
             None
@@ -71,9 +80,10 @@ pub fn get_pe_pdb_buf<'a>(
             Some((pe, pdb_buf, pdb_name))
         } else {
             // Not here so try symbol server (or cache)
-            let debug_id = pe.debug_id().breakpad().to_string();
-            let (pdb, pdb_name) = cache::search_file(pdb_name, &debug_id, symbol_server);
-            pdb.map(|pdb_buf| (pe, pdb_buf, pdb_name))
+            let id = debug_id.breakpad().to_string();
+            let (pdb, pdb_name) = cache::search_file(pdb_name, &id, symbol_server);
+            pdb.filter(|pdb_buf| has_debug_id(pdb_buf, &debug_id))
+                .map(|pdb_buf| (pe, pdb_buf, pdb_name))
         }
     } else {
         None
@@ -95,7 +105,10 @@ pub(crate) fn find_pe_for_pdb(path: &Path, pdb_debug_id: &DebugId) -> Option<(St
     for ext in vec!["dll", "dl_", "exe", "ex_"].drain(..) {
         path.set_extension(ext);
         if path.is_file() {
-            let buf = utils::read_file(&path);
+            let buf = match read_companion(&path) {
+                Some(buf) => buf,
+                None => continue,
+            };
             if let Ok(pe) = PeObject::parse(&buf) {
                 if ext.ends_with('_') {
                     path.set_extension(fix_extension(ext));
-- 
2.43.0


From 05e0e264333c8b51d2d0a732118dd31a3fcfefb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:31 +0000
Subject: [PATCH 19/30] fix: never leave an incomplete file in the cache of a
 symbol server

---
 src/cache.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index feaa640..faa369c 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -7,7 +7,7 @@ use dirs::home_dir;
 use futures::{stream, StreamExt};
 use reqwest::{blocking, header::USER_AGENT, Client};
 use std::fs::{self, File};
-use std::io::{BufWriter, Read, Write};
+use std::io::Read;
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
 use tokio::runtime::Runtime;
@@ -136,12 +136,15 @@ fn copy_in_cache(path: Option<PathBuf>, data: &[u8]) -> bool {
         }
     }
 
-    let output = File::create(&path)
-        .unwrap_or_else(|_| panic!("Cannot open file {} for writing", path.to_str().unwrap()));
-    let mut output = BufWriter::new(output);
-    output
-        .write_all(data)
-        .unwrap_or_else(|_| panic!("Cannot write file {}", path.to_str().unwrap()));
+    // The file must only be visible in the cache once it's complete
+    let mut tmp_name = path.file_name().unwrap_or_default().to_os_string();
+    tmp_name.push(format!(".{}.tmp", std::process::id()));
+    let tmp_path = path.with_file_name(tmp_name);
+    let res = fs::write(&tmp_path, data).and_then(|_| fs::rename(&tmp_path, &path));
+    if res.is_err() {
+        let _ = fs::remove_file(&tmp_path);
+        panic!("Cannot write file {}", path.to_str().unwrap());
+    }
 
     true
 }
-- 
2.43.0


From ed727fc92586396e5994a549cbd936e2727135ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:36 +0000
Subject: [PATCH 20/30] fix: don't take the body of an HTTP error for the
 requested file

---
 src/cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cache.rs b/src/cache.rs
index faa369c..c801fec 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -239,7 +239,8 @@ fn fetch_data(jobs: Vec<Job>) -> Option<Vec<u8>> {
         let resp = client
             .get(&job.url)
             .header(USER_AGENT, DEFAULT_USER_AGENT)
-            .send();
+            .send()
+            .and_then(|resp| resp.error_for_status());
         if let Ok(mut resp) = resp {
             if resp.copy_to(&mut buf).is_err() {
                 None
-- 
2.43.0


From 75a1d967e1d9535ddadc51e72de2a82a7bd2b1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:56 +0000
Subject: [PATCH 21/30] fix: accept non-ASCII file names when looking for a
 file on a symbol server

---
 src/cache.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index c801fec..89c0028 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -178,16 +178,12 @@ fn get_jobs(servers: &[SymbolServer], id: &str, base: &Path, file_name: &str) ->
         )
         .unwrap_or_else(|e| panic!("{}", e));
         jobs.push(job);
-        if !file_name.ends_with('_') {
+        let mut compressed_name = file_name.to_string();
+        if compressed_name.pop() != Some('_') {
+            compressed_name.push('_');
             let job = Job::new(
                 path,
-                format!(
-                    "{}/{}/{}/{}_",
-                    server.server,
-                    file_name,
-                    id,
-                    &file_name[..file_name.len() - 1]
-                ),
+                format!("{}/{}/{}/{}", server.server, file_name, id, compressed_name),
             )
             .unwrap_or_else(|e| panic!("{}", e));
             jobs.push(job);
-- 
2.43.0


From ef7e4caba7607019f9088b34d4537ac6a807c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:02 +0000
Subject: [PATCH 22/30] fix: use --symbol-server when dumping several files

---
 src/dumper.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index b881be0..4e6a549 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -348,6 +348,7 @@ struct JobItem {
     file: String,
     typ: JobType,
     mapping: Option<Arc<PathMappings>>,
+    symbol_server: Option<String>,
     collect_inlines: bool,
 }
 
@@ -394,6 +395,7 @@ fn send_store_jobs(
                 file: "".to_string(),
                 typ: JobType::Dump(d),
                 mapping: None,
+                symbol_server: None,
                 collect_inlines,
             }))
             .unwrap();
@@ -436,6 +438,7 @@ fn consumer(
             file,
             typ,
             mapping,
+            symbol_server,
             collect_inlines,
         } = job.unwrap();
 
@@ -446,7 +449,15 @@ fn consumer(
                     let filename = utils::get_filename(&path);
                     let buf = utils::read_file(&path);
 
-                    get_object_info(buf, &path, &filename, mapping, arch, None, collect_inlines)
+                    get_object_info(
+                        buf,
+                        &path,
+                        &filename,
+                        mapping,
+                        arch,
+                        symbol_server.as_deref(),
+                        collect_inlines,
+                    )
                 });
                 match res {
                     Ok(info) => results.lock().unwrap().push((index, info)),
@@ -518,6 +529,7 @@ pub fn several_files(config: &Config, filenames: &[&str]) -> common::Result<()>
                 file: f.to_string(),
                 typ: JobType::Get,
                 mapping: file_mapping.clone(),
+                symbol_server: config.symbol_server.map(str::to_string),
                 collect_inlines: config.emit_inlines,
             }))
             .unwrap();
-- 
2.43.0


From c0077eccd5d85ab52e50986535ab408efa4f1f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:01 +0000
Subject: [PATCH 23/30] fix: drop the PUBLICs inside a FUNC of the other file,
 whichever has more symbols

---
 src/object_info.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/object_info.rs b/src/object_info.rs
index cff29af..1531568 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -276,6 +276,15 @@ impl ObjectInfo {
             }
         }
 
+        // A PUBLIC from left may be inside a FUNC from right
+        let mut end = 0;
+        left.symbols.retain(|addr, sym| {
+            if !sym.is_public {
+                end = addr.saturating_add(sym.len);
+            }
+            !sym.is_public || *addr >= end
+        });
+
         if left.code_id.is_none() && right.code_id.is_some() {
             left.code_id = right.code_id;
         }
-- 
2.43.0


From e4ef911b36e354493ce76b26544a54a57097bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:07 +0000
Subject: [PATCH 24/30] fix: keep the name of the stripped file when merging
 more than two files

---
 src/object_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/object_info.rs b/src/object_info.rs
index 1531568..0d4b551 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -291,6 +291,7 @@ impl ObjectInfo {
 
         if right.bin_type == Type::Stripped {
             left.file_name = right.file_name;
+            left.bin_type = Type::Stripped;
         }
 
         Ok(left)
-- 
2.43.0


From 950302970bac2fc975b12937d42bc2521d34ffbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:34 +0000
Subject: [PATCH 25/30] fix: don't put a directory in front of an absolute file
 name

---
 src/source.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/source.rs b/src/source.rs
index cb03588..136cb2e 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -77,7 +77,12 @@ impl SourceFiles {
             let comp_dir = Self::path_to_string(compilation_dir);
             dir = platform.join_paths(&comp_dir, &dir);
         };
-        let path = platform.join_paths(&dir, &name);
+        // The directory is only for relative names
+        let path = if platform.is_absolute_path(&name) {
+            name.to_string()
+        } else {
+            platform.join_paths(&dir, &name)
+        };
 
         if canonicalize {
             // Try to get the real path and in case we're on the machine where the files have been compiled
-- 
2.43.0


From c282920b4cea0a56f9ef2c97f48008c8e4227697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:57 +0000
Subject: [PATCH 26/30] fix: don't share the temporary file of the cache
 between threads

---
 src/cache.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 89c0028..448cc50 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -9,6 +9,7 @@ use reqwest::{blocking, header::USER_AGENT, Client};
 use std::fs::{self, File};
 use std::io::Read;
 use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::{Arc, Mutex};
 use tokio::runtime::Runtime;
 use url::Url;
@@ -136,9 +137,15 @@ fn copy_in_cache(path: Option<PathBuf>, data: &[u8]) -> bool {
         }
     }
 
-    // The file must only be visible in the cache once it's complete
+    // The file must only be visible in the cache once it's complete, and several threads can have
+    // downloaded it
+    static TMP_COUNT: AtomicUsize = AtomicUsize::new(0);
     let mut tmp_name = path.file_name().unwrap_or_default().to_os_string();
-    tmp_name.push(format!(".{}.tmp", std::process::id()));
+    tmp_name.push(format!(
+        ".{}.{}.tmp",
+        std::process::id(),
+        TMP_COUNT.fetch_add(1, Ordering::Relaxed)
+    ));
     let tmp_path = path.with_file_name(tmp_name);
     let res = fs::write(&tmp_path, data).and_then(|_| fs::rename(&tmp_path, &path));
     if res.is_err() {
-- 
2.43.0


From 6664f0e7be4baa583440f7b29603083d27e4be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:45 +0000
Subject: [PATCH 27/30] fix: don't abort when the size in a cabinet exceeds the
 memory

---
 src/utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 75ce467..3823b01 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -125,7 +125,11 @@ pub fn read_cabinet(buf: Vec<u8>, path: PathBuf) -> Option<Vec<u8>> {
         _ => return None,
     };
 
-    let mut buf = Vec::with_capacity(size + 1);
+    // The size comes from the file and may be anything.
+    let mut buf = Vec::new();
+    if buf.try_reserve_exact(size.saturating_add(1)).is_err() {
+        return None;
+    }
     let mut reader = match cab.read_file(&file) {
         Ok(reader) => reader,
         _ => return None,
-- 
2.43.0


From cd0b64e12848904badbbece9925620d11792d9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:53 +0000
Subject: [PATCH 28/30] fix: keep the name of the PE when the code id of a
 merged module comes from it

---
 src/object_info.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/object_info.rs b/src/object_info.rs
index 0d4b551..ec9e768 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -287,6 +287,7 @@ impl ObjectInfo {
 
         if left.code_id.is_none() && right.code_id.is_some() {
             left.code_id = right.code_id;
+            left.pe_name = right.pe_name;
         }
 
         if right.bin_type == Type::Stripped {
-- 
2.43.0


From 7bb0d8475997e3f5d9cc4ef19d88cdc4ff87e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:08 +0000
Subject: [PATCH 29/30] fix: let real symbols win over placeholder functions
 when merging

---
 src/object_info.rs | 12 +++++++++---
 src/symbol.rs      |  5 +++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/object_info.rs b/src/object_info.rs
index ec9e768..9c65bdf 100644
--- a/src/object_info.rs
+++ b/src/object_info.rs
@@ -240,7 +240,10 @@ impl ObjectInfo {
                             continue;
                         }
 
-                        if e.get().is_synthetic {
+                        if e.get().is_synthetic && !e.get().is_public {
+                            // A placeholder function only lacks a name
+                            e.get_mut().take_name(sym);
+                        } else if e.get().is_synthetic {
                             // Always replace a synthetic symbol
                             e.insert(sym.clone());
                         } else if e.get().name != sym.name {
@@ -259,11 +262,14 @@ impl ObjectInfo {
             match left.symbols.entry(*addr) {
                 btree_map::Entry::Occupied(mut e) => {
                     let a_sym = e.get_mut();
-                    if a_sym.is_public {
-                        // FUNC is more interesting than the PUBLIC
+                    if a_sym.is_public || (a_sym.is_synthetic && !sym.is_synthetic) {
+                        // FUNC is more interesting than the PUBLIC (or a placeholder)
                         // so just keep the FUNC
                         sym.remap_lines(file_remapping.as_deref());
                         sym.remap_inlines(file_remapping.as_deref(), &inline_origin_remapping);
+                        if sym.is_synthetic && !a_sym.is_synthetic {
+                            sym.take_name(a_sym);
+                        }
                         std::mem::swap(a_sym, sym);
                     }
                     a_sym.is_multiple = true;
diff --git a/src/symbol.rs b/src/symbol.rs
index c5b5072..419c9a1 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -69,6 +69,11 @@ impl Display for Symbol {
 }
 
 impl Symbol {
+    pub(super) fn take_name(&mut self, other: &Symbol) {
+        self.name = other.name.clone();
+        self.parameter_size = other.parameter_size;
+    }
+
     pub(super) fn remap_lines(&mut self, file_remapping: Option<&[u32]>) {
         if let Some(file_remapping) = file_remapping {
             for line in self.source.lines.iter_mut() {
-- 
2.43.0


From 4866f46cf3142086b73207cf848659f612cbce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:07 +0000
Subject: [PATCH 30/30] fix: don't lose inlined calls when merging files which
 have got the same path

---
 src/symbol.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/symbol.rs b/src/symbol.rs
index 419c9a1..e999d29 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -88,17 +88,18 @@ impl Symbol {
         inline_origin_remapping: &[u32],
     ) {
         let inlines = std::mem::take(&mut self.source.inlines);
-        self.source.inlines = inlines
-            .into_iter()
-            .map(|(mut inline_site, address_ranges)| {
-                if let Some(file_remapping) = file_remapping {
-                    inline_site.call_file_id = file_remapping[inline_site.call_file_id as usize];
-                }
-                inline_site.inline_origin_id =
-                    inline_origin_remapping[inline_site.inline_origin_id as usize];
-                (inline_site, address_ranges)
-            })
-            .collect();
+        for (mut inline_site, address_ranges) in inlines {
+            if let Some(file_remapping) = file_remapping {
+                inline_site.call_file_id = file_remapping[inline_site.call_file_id as usize];
+            }
+            inline_site.inline_origin_id =
+                inline_origin_remapping[inline_site.inline_origin_id as usize];
+
+            // Two files may have got the same path (because of a mapping) and so the same id
+            let ranges = self.source.inlines.entry(inline_site).or_default();
+            ranges.extend(address_ranges);
+            ranges.sort_by_key(|range| range.rva);
+        }
     }
 }
 
-- 
2.43.0

