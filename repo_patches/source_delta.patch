From 23951fc0adbb2fe6e3ac4c6009a8e1a70eeaa306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:18 +0000
Subject: [PATCH 01/30] fix: static libraries keep objects of removed sources

Archivers update an existing archive in place. Remove the old archive before
linking so that an incremental build equals a clean one.
---
 buildcc/lib/target/src/target/friend/link_target.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index fb5219a..ed9d0de 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -101,6 +101,12 @@ void LinkTarget::BuildLink() {
   }
 
   if (target_.dirty_) {
+    // Archivers update existing archives in place i.e objects of removed
+    // sources would stay inside the static library
+    if (target_.GetType() == TargetType::StaticLibrary) {
+      std::error_code errcode;
+      fs::remove(output_, errcode);
+    }
     bool success = env::Command::Execute(command_);
     env::assert_fatal(success, "Failed to link target");
     target_.serialization_.UpdateTargetCompiled();
-- 
2.43.0


From 73a8c02e01e3aed57ceb2278f7615d8426dbe78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:47 +0000
Subject: [PATCH 02/30] fix: removing the last precompiled header does not
 recompile sources

The object stage compares the recorded precompiled headers too, because the
precompiled header stage does not run once the list is empty.
---
 buildcc/lib/target/src/target/friend/compile_object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index f905426..eee36a0 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -194,7 +194,8 @@ void CompileObject::BuildObjectCompile(
                  user_target_schema.include_dirs)) {
       target_.dirty_ = true;
       target_.DirChanged();
-    } else if (!(load_target_schema.headers == user_target_schema.headers)) {
+    } else if (!(load_target_schema.headers == user_target_schema.headers) ||
+               !(load_target_schema.pchs == user_target_schema.pchs)) {
       target_.dirty_ = true;
       target_.PathChanged();
     } else if (!(load_target_schema.compile_dependencies ==
-- 
2.43.0


From b08f3f8fd3ee5681565c5a5a4ea372b3ca274aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:37 +0000
Subject: [PATCH 03/30] fix: interrupted builds leave a stale build record
 behind

Remove the record of a target before its outputs are modified. Otherwise a
build killed after running commands keeps the previous record, and going back
to the previous inputs skips the steps whose outputs were already overwritten.
---
 .../lib/target/src/target/friend/compile_object.cpp   |  5 +++++
 buildcc/lib/target/src/target/friend/compile_pch.cpp  |  2 ++
 buildcc/lib/target/src/target/friend/link_target.cpp  |  2 ++
 .../schema/interface/serialization_interface.h        | 11 +++++++++++
 4 files changed, 20 insertions(+)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index eee36a0..be06274 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -210,6 +210,11 @@ void CompileObject::BuildObjectCompile(
   } else {
     RecompileSources(source_files, dummy_source_files);
   }
+
+  if (target_.dirty_) {
+    env::assert_fatal(target_.serialization_.InvalidateFile(),
+                      "Could not invalidate previous build");
+  }
 }
 
 void CompileObject::PreObjectCompile() {
diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index be3b514..ed03530 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -108,6 +108,8 @@ void CompilePch::BuildCompile() {
   }
 
   if (target_.dirty_) {
+    env::assert_fatal(target_.serialization_.InvalidateFile(),
+                      "Could not invalidate previous build");
     AggregateToFile(header_path_, target_.GetPchFiles());
     if (!fs::exists(source_path_)) {
       const std::string p = fmt::format("{}", source_path_);
diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index ed9d0de..4bdd7d5 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -101,6 +101,8 @@ void LinkTarget::BuildLink() {
   }
 
   if (target_.dirty_) {
+    env::assert_fatal(target_.serialization_.InvalidateFile(),
+                      "Could not invalidate previous build");
     // Archivers update existing archives in place i.e objects of removed
     // sources would stay inside the static library
     if (target_.GetType() == TargetType::StaticLibrary) {
diff --git a/buildcc/schema/include/schema/interface/serialization_interface.h b/buildcc/schema/include/schema/interface/serialization_interface.h
index c09bdde..65033b5 100644
--- a/buildcc/schema/include/schema/interface/serialization_interface.h
+++ b/buildcc/schema/include/schema/interface/serialization_interface.h
@@ -56,6 +56,17 @@ public:
 
   bool StoreToFile() { return Store(serialized_file_); }
 
+  /**
+   * @brief Removes the serialized file (if present)
+   * Call this before outputs are modified, otherwise an interrupted build leaves
+   * a serialized file behind which does not describe the outputs anymore
+   */
+  bool InvalidateFile() const {
+    std::error_code errcode;
+    fs::remove(path_as_string(serialized_file_), errcode);
+    return !errcode;
+  }
+
   const fs::path &GetSerializedFile() const noexcept {
     return serialized_file_;
   }
-- 
2.43.0


From 96b6477787bd963324f8e2453eb003629ccd61ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:07 +0000
Subject: [PATCH 04/30] fix: generator payload added, removed or of another
 type fails forever or is missed

An id which gains a blob handler (or whose payload changes type) failed every
build because the stored blob cannot be verified/deserialized. Removing the
blob handler was not seen as a change.
---
 .../include/target/custom_generator/custom_blob_handler.h  | 7 ++++++-
 .../lib/target/src/custom_generator/custom_generator.cpp   | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h b/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h
index 3b64d23..ec3eeb0 100644
--- a/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h
+++ b/buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h
@@ -93,7 +93,12 @@ private:
 
   bool IsEqual(const std::vector<uint8_t> &previous,
                const std::vector<uint8_t> &current) const override {
-    return Deserialize(previous) == Deserialize(current);
+    try {
+      return Deserialize(previous) == Deserialize(current);
+    } catch (const json::exception &) {
+      // previous was stored with a different Type
+      return false;
+    }
   }
 
   std::vector<uint8_t> Serialize() const override {
diff --git a/buildcc/lib/target/src/custom_generator/custom_generator.cpp b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
index 138bb9f..5669d52 100644
--- a/buildcc/lib/target/src/custom_generator/custom_generator.cpp
+++ b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
@@ -74,6 +74,11 @@ struct Comparator {
 
     bool changed = !previous_id_info.inputs.IsEqual(current_id_info.inputs) ||
                    !previous_id_info.outputs.IsEqual(current_id_info.outputs);
+    if (!changed) {
+      // Blob handler has been added or removed
+      changed = previous_id_info.userblob.empty() !=
+                current_id_info.userblob.empty();
+    }
     if (!changed && current_id_info.blob_handler != nullptr) {
       // We only check blob handler if not changed by inputs/outputs
       // Checking blob_handler could be expensive so this optimization is made
-- 
2.43.0


From af91e80b61aabca72d247a7337685ad23ea15139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:46 +0000
Subject: [PATCH 05/30] fix: interrupted generators leave a stale build record
 behind

---
 .../target/src/custom_generator/custom_generator.cpp | 12 +++++++++---
 .../schema/interface/serialization_interface.h       |  6 ++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/buildcc/lib/target/src/custom_generator/custom_generator.cpp b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
index 5669d52..4fff092 100644
--- a/buildcc/lib/target/src/custom_generator/custom_generator.cpp
+++ b/buildcc/lib/target/src/custom_generator/custom_generator.cpp
@@ -124,9 +124,10 @@ struct TaskFunctor {
   TaskFunctor(const std::string &id,
               UserCustomGeneratorSchema::UserIdInfo &id_info,
               const Comparator &comparator, const env::Command &command,
+              const internal::CustomGeneratorSerialization &serialization,
               TaskState &state)
       : id_(id), id_info_(id_info), comparator(comparator), command_(command),
-        state_(state) {}
+        serialization_(serialization), state_(state) {}
 
   void operator()() {
     if (env::get_task_state() != env::TaskState::SUCCESS) {
@@ -140,6 +141,8 @@ struct TaskFunctor {
 
       // Invoke generator callback
       if (state_.should_run) {
+        env::assert_fatal(serialization_.InvalidateFile(),
+                          "Could not invalidate previous build");
         const auto input_paths = id_info_.inputs.GetPaths();
         CustomGeneratorContext ctx(command_, input_paths,
                                    id_info_.outputs.GetPaths(),
@@ -161,6 +164,7 @@ private:
 
   const Comparator &comparator;
   const env::Command &command_;
+  const internal::CustomGeneratorSerialization &serialization_;
 
   TaskState &state_;
 };
@@ -282,14 +286,16 @@ void CustomGenerator::GenerateTask() {
       for (const auto &id : comparator.GetAddedIds()) {
         states.try_emplace(id, TaskState());
         auto &id_info = user_.ids.at(id);
-        TaskFunctor functor(id, id_info, comparator, command_, states.at(id));
+        TaskFunctor functor(id, id_info, comparator, command_, serialization_,
+                            states.at(id));
         subflow.emplace(functor).name(id);
       }
 
       for (const auto &id : comparator.GetCheckLaterIds()) {
         states.try_emplace(id, TaskState());
         auto &id_info = user_.ids.at(id);
-        TaskFunctor functor(id, id_info, comparator, command_, states.at(id));
+        TaskFunctor functor(id, id_info, comparator, command_, serialization_,
+                            states.at(id));
         subflow.emplace(functor).name(id);
       }
 
diff --git a/buildcc/schema/include/schema/interface/serialization_interface.h b/buildcc/schema/include/schema/interface/serialization_interface.h
index 65033b5..61d5af5 100644
--- a/buildcc/schema/include/schema/interface/serialization_interface.h
+++ b/buildcc/schema/include/schema/interface/serialization_interface.h
@@ -57,13 +57,15 @@ public:
   bool StoreToFile() { return Store(serialized_file_); }
 
   /**
-   * @brief Removes the serialized file (if present)
+   * @brief Removes the serialized file (if it has been loaded)
    * Call this before outputs are modified, otherwise an interrupted build leaves
    * a serialized file behind which does not describe the outputs anymore
    */
   bool InvalidateFile() const {
     std::error_code errcode;
-    fs::remove(path_as_string(serialized_file_), errcode);
+    if (loaded_) {
+      fs::remove(path_as_string(serialized_file_), errcode);
+    }
     return !errcode;
   }
 
-- 
2.43.0


From 8f8bec849aeea01f0397f97d986ba28507a648b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:33 +0000
Subject: [PATCH 06/30] fix: generator inputs edited while the generator runs
 are recorded as built

---
 buildcc/lib/target/include/target/custom_generator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/target/include/target/custom_generator.h b/buildcc/lib/target/include/target/custom_generator.h
index a9dec03..7e71d80 100644
--- a/buildcc/lib/target/include/target/custom_generator.h
+++ b/buildcc/lib/target/include/target/custom_generator.h
@@ -49,9 +49,10 @@ struct UserCustomGeneratorSchema : public internal::CustomGeneratorSchema {
     std::shared_ptr<CustomBlobHandler> blob_handler{nullptr};
   };
 
+  // NOTE, id_info has already been converted before its generate_cb is invoked
+  // Converting it again would record inputs which changed in the meantime
   void ConvertToInternal() {
-    for (auto &[id_key, id_info] : ids) {
-      id_info.ConvertToInternal();
+    for (const auto &[id_key, id_info] : ids) {
       auto [_, success] = internal_ids.try_emplace(id_key, id_info);
       env::assert_fatal(success, fmt::format("Could not save {}", id_key));
     }
-- 
2.43.0


From d760b7ceea1d5983a4dae7e4dc3c52cb88ffd513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:58 +0000
Subject: [PATCH 07/30] fix: changed pattern values do not regenerate templates

---
 buildcc/lib/env/include/env/command.h                   | 5 +++++
 buildcc/lib/target/include/target/template_generator.h  | 2 ++
 buildcc/lib/target/src/generator/template_generator.cpp | 8 +++++++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/env/include/env/command.h b/buildcc/lib/env/include/env/command.h
index c054e6b..aa8736d 100644
--- a/buildcc/lib/env/include/env/command.h
+++ b/buildcc/lib/env/include/env/command.h
@@ -86,6 +86,11 @@ public:
    */
   const std::string &GetDefaultValueByKey(const std::string &key) const;
 
+  const std::unordered_map<std::string, std::string> &
+  GetDefaultArguments() const {
+    return default_values_;
+  }
+
 private:
   std::unordered_map<std::string, std::string> default_values_;
 };
diff --git a/buildcc/lib/target/include/target/template_generator.h b/buildcc/lib/target/include/target/template_generator.h
index 73c892e..2f70140 100644
--- a/buildcc/lib/target/include/target/template_generator.h
+++ b/buildcc/lib/target/include/target/template_generator.h
@@ -17,6 +17,7 @@
 #ifndef TARGET_TEMPLATE_GENERATOR_H_
 #define TARGET_TEMPLATE_GENERATOR_H_
 
+#include <map>
 #include <string_view>
 
 #include "target/custom_generator.h"
@@ -53,6 +54,7 @@ private:
 
 private:
   std::vector<TemplateInfo> template_infos_;
+  std::map<std::string, std::string> patterns_;
 };
 
 } // namespace buildcc
diff --git a/buildcc/lib/target/src/generator/template_generator.cpp b/buildcc/lib/target/src/generator/template_generator.cpp
index 45cab89..d201d15 100644
--- a/buildcc/lib/target/src/generator/template_generator.cpp
+++ b/buildcc/lib/target/src/generator/template_generator.cpp
@@ -62,12 +62,18 @@ std::string TemplateGenerator::Parse(const std::string &pattern) const {
  * Use `GetTaskflow` for the registered tasks
  */
 void TemplateGenerator::Build() {
+  // Outputs depend on the pattern values as well
+  const auto &arguments = ConstCommand().GetDefaultArguments();
+  patterns_ = {arguments.begin(), arguments.end()};
+  const auto blob_handler = std::make_shared<
+      TypedCustomBlobHandler<std::map<std::string, std::string>>>(patterns_);
+
   for (const auto &info : template_infos_) {
     std::string name = string_as_path(ParsePattern(info.input_pattern))
                            .lexically_relative(Project::GetRootDir())
                            .string();
     AddIdInfo(name, {info.input_pattern}, {info.output_pattern},
-              template_generate_cb);
+              template_generate_cb, blob_handler);
   }
   this->CustomGenerator::Build();
 }
-- 
2.43.0


From 32da8cf21590533ceb679481a498c675ee259f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:19 +0000
Subject: [PATCH 08/30] fix: changed compile dependencies do not rebuild the
 precompiled header

Objects were recompiled against a precompiled header built from the previous
contents of its declared compile dependencies.
---
 buildcc/lib/target/src/target/friend/compile_pch.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index ed03530..a532250 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -97,7 +97,9 @@ void CompilePch::BuildCompile() {
       target_.dirty_ = true;
       target_.DirChanged();
     } else if (!(load_target_schema.headers == user_target_schema.headers) ||
-               !(load_target_schema.pchs == user_target_schema.pchs)) {
+               !(load_target_schema.pchs == user_target_schema.pchs) ||
+               !(load_target_schema.compile_dependencies ==
+                 user_target_schema.compile_dependencies)) {
       target_.dirty_ = true;
       target_.PathChanged();
     } else if (!load_target_schema.pch_compiled) {
@@ -172,6 +174,8 @@ void CompilePch::PreCompile() {
   target_user_schema.headers.ComputeHashForAll();
 
   target_user_schema.pchs.ComputeHashForAll();
+
+  target_user_schema.compile_dependencies.ComputeHashForAll();
 }
 
 } // namespace buildcc::internal
-- 
2.43.0


From 2340b11ef94b9ed98289f01513ceddf66da5ea02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:37 +0000
Subject: [PATCH 09/30] fix: headers edited while the precompiled header
 compiles are recorded as built

---
 buildcc/lib/target/src/target/friend/compile_object.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index be06274..b6496c4 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -223,6 +223,12 @@ void CompileObject::PreObjectCompile() {
   // Convert user_source_files to current_source_files
   target_user_schema.sources.ComputeHashForAll();
 
+  // NOTE, The pch stage has already converted (and used) these
+  // Files edited after the pch was compiled must not be recorded as built
+  if (target_.GetState().ContainsPch()) {
+    return;
+  }
+
   // Convert user_header_files to current_header_files
   target_user_schema.headers.ComputeHashForAll();
 
-- 
2.43.0


From 9d6e44e53f6160ead5c04392c982b0934b121919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:24 +0000
Subject: [PATCH 10/30] fix: task state is read without the lock that guards
 its writes

---
 buildcc/lib/env/src/task_state.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/buildcc/lib/env/src/task_state.cpp b/buildcc/lib/env/src/task_state.cpp
index d0b14a6..330d155 100644
--- a/buildcc/lib/env/src/task_state.cpp
+++ b/buildcc/lib/env/src/task_state.cpp
@@ -28,14 +28,13 @@ buildcc::env::TaskState current_state{buildcc::env::TaskState::SUCCESS};
 namespace buildcc::env {
 
 void set_task_state(TaskState state) {
-  // NOTE, `Avoid resetting` if same state is provided
-  if (state == get_task_state()) {
-    return;
-  }
   std::lock_guard<std::mutex> guard(current_state_mutex);
   current_state = state;
 }
 
-TaskState get_task_state() { return current_state; }
+TaskState get_task_state() {
+  std::lock_guard<std::mutex> guard(current_state_mutex);
+  return current_state;
+}
 
 } // namespace buildcc::env
-- 
2.43.0


From 895ad787cd23a28b4eeb55eb3ac6657d9d0bbf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:24 +0000
Subject: [PATCH 11/30] fix: a failing test hangs the run instead of failing it

---
 buildcc/lib/args/src/tasks.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/buildcc/lib/args/src/tasks.cpp b/buildcc/lib/args/src/tasks.cpp
index 8328671..2e4c99f 100644
--- a/buildcc/lib/args/src/tasks.cpp
+++ b/buildcc/lib/args/src/tasks.cpp
@@ -42,13 +42,20 @@ void Reg::Instance::RunBuild() {
 
 void Reg::Instance::RunTest() {
   tf::Taskflow test_tf{"Tests"};
-  test_tf.for_each(
-      tests_.begin(), tests_.end(),
-      [](const std::pair<std::string, TestInfo> &p) { p.second.TestRunner(); });
+  test_tf.for_each(tests_.begin(), tests_.end(),
+                   [](const std::pair<std::string, TestInfo> &p) {
+                     try {
+                       p.second.TestRunner();
+                     } catch (...) {
+                       env::set_task_state(env::TaskState::FAILURE);
+                     }
+                   });
 
   tf::Executor executor;
   executor.run(test_tf);
   executor.wait_for_all();
+  env::assert_fatal(env::get_task_state() == env::TaskState::SUCCESS,
+                    "Tests are not successful!");
 }
 
 } // namespace buildcc
-- 
2.43.0


From 1f85c17a12b8a6626ee6f46adef0be8a5ed4c853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:25 +0000
Subject: [PATCH 12/30] fix: save_file reports success before the data is
 written

---
 buildcc/lib/env/include/env/util.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/env/include/env/util.h b/buildcc/lib/env/include/env/util.h
index 45a7144..f3573d7 100644
--- a/buildcc/lib/env/include/env/util.h
+++ b/buildcc/lib/env/include/env/util.h
@@ -58,8 +58,10 @@ inline bool save_file(const char *name, const char *buf, size_t len,
   }
 
   // * 1
-  std::ostream &os = ofs.write(buf, len);
-  return !os.bad();
+  ofs.write(buf, len);
+  // Data is buffered, errors may only show up when it is flushed
+  ofs.close();
+  return !ofs.fail();
 }
 
 inline bool save_file(const char *name, const std::string &buf, bool binary) {
-- 
2.43.0


From 5e17e9fdffff6edbb5d3d56a32d8677259a54ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:22 +0000
Subject: [PATCH 13/30] fix: load_file reports success for incomplete reads

---
 buildcc/lib/env/include/env/util.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/env/include/env/util.h b/buildcc/lib/env/include/env/util.h
index f3573d7..c116349 100644
--- a/buildcc/lib/env/include/env/util.h
+++ b/buildcc/lib/env/include/env/util.h
@@ -100,14 +100,16 @@ inline bool load_file(const char *name, bool binary, std::string *buf) {
     // * 3
     // flawfinder: ignore
     ifs.read(buf->data(), buf->size());
+    return static_cast<size_t>(ifs.gcount()) == size;
   } else {
     // This is slower, but works correctly on all platforms for text files.
     // * 4
     std::ostringstream oss;
-    oss << ifs.rdbuf();
+    // Only a read that reaches the end of the file is complete
+    ifs >> std::noskipws >> oss.rdbuf();
     *buf = oss.str();
+    return ifs.eof();
   }
-  return !ifs.bad();
 }
 
 // TODO, Shift this to a common apis folder or something
-- 
2.43.0


From 964bb8de4c3d5dec33adb0035b217fa6108c5bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:33 +0000
Subject: [PATCH 14/30] fix: storage accepts an identifier twice and leaks the
 second object

---
 buildcc/lib/env/include/env/storage.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/buildcc/lib/env/include/env/storage.h b/buildcc/lib/env/include/env/storage.h
index b5407df..376f0c8 100644
--- a/buildcc/lib/env/include/env/storage.h
+++ b/buildcc/lib/env/include/env/storage.h
@@ -38,6 +38,8 @@ public:
 
   template <typename T, typename... Params>
   T &Add(const std::string &identifier, Params &&...params) {
+    env::assert_fatal(!Contains(identifier),
+                      fmt::format("'{}' already added", identifier));
     T *ptr = new T(std::forward<Params>(params)...);
     env::assert_fatal(ptr != nullptr, "System out of memory");
 
-- 
2.43.0


From 436ff8938df9fe7854fd87514cc1ce06253ae659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:33 +0000
Subject: [PATCH 15/30] fix: a builder can be made to depend on itself and
 nothing runs

---
 buildcc/lib/args/src/register.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/buildcc/lib/args/src/register.cpp b/buildcc/lib/args/src/register.cpp
index e141541..4ad41a3 100644
--- a/buildcc/lib/args/src/register.cpp
+++ b/buildcc/lib/args/src/register.cpp
@@ -157,6 +157,9 @@ void Reg::Instance::Dep(const internal::BuilderInterface &target,
                     "dependency before Instance::Dep API");
 
   const std::string &dep_unique_id = dependency.GetUniqueId();
+  env::assert_fatal(
+      target_iter != dep_iter,
+      fmt::format("'{}' cannot depend on itself", dep_unique_id));
   DepDetectDuplicate(target_iter->second, dep_unique_id);
   DepDetectCyclicDependency(target_iter->second, dep_unique_id);
 
-- 
2.43.0


From 1951dd5977eadb570532a2868a83bfaa29220ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 16/30] fix: paths with spaces are not quoted in commands and
 break the pch source

---
 buildcc/lib/target/src/target/build.cpp              | 12 ++++++++----
 .../lib/target/src/target/friend/compile_object.cpp  |  3 ++-
 buildcc/lib/target/src/target/friend/compile_pch.cpp |  2 +-
 buildcc/lib/target/src/target/friend/link_target.cpp |  5 +++--
 4 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/buildcc/lib/target/src/target/build.cpp b/buildcc/lib/target/src/target/build.cpp
index 18ae8fa..ef7d269 100644
--- a/buildcc/lib/target/src/target/build.cpp
+++ b/buildcc/lib/target/src/target/build.cpp
@@ -72,10 +72,14 @@ void Target::Build() {
   // Target default arguments
   command_.AddDefaultArguments({
       {kIncludeDirs,
-       internal::aggregate_with_prefix<std::vector<std::string>>(
-           toolchain_.GetConfig().prefix_include_dir, GetIncludeDirs())},
-      {kLibDirs, internal::aggregate_with_prefix<std::vector<std::string>>(
-                     toolchain_.GetConfig().prefix_lib_dir, GetLibDirs())},
+       internal::aggregate_with_prefix(
+           toolchain_.GetConfig().prefix_include_dir,
+           std::vector<fs::path>(GetIncludeDirs().begin(),
+                                 GetIncludeDirs().end()))},
+      {kLibDirs,
+       internal::aggregate_with_prefix(
+           toolchain_.GetConfig().prefix_lib_dir,
+           std::vector<fs::path>(GetLibDirs().begin(), GetLibDirs().end()))},
       {kPreprocessorFlags, internal::aggregate(GetPreprocessorFlags())},
       {kCommonCompileFlags, internal::aggregate(GetCommonCompileFlags())},
       //  TODO, Cache more flags here
diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index b6496c4..2da9511 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -44,7 +44,8 @@ void CompileObject::CacheCompileCommands() {
 
     const std::string output =
         fmt::format("{}", GetObjectData(absolute_current_source).output);
-    const std::string input = fmt::format("{}", absolute_current_source);
+    const std::string input =
+        fmt::format("{}", fs::path(absolute_current_source));
 
     const auto type =
         target_.toolchain_.GetConfig().GetFileExt(absolute_current_source);
diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index a532250..19987c6 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -114,7 +114,7 @@ void CompilePch::BuildCompile() {
                       "Could not invalidate previous build");
     AggregateToFile(header_path_, target_.GetPchFiles());
     if (!fs::exists(source_path_)) {
-      const std::string p = fmt::format("{}", source_path_);
+      const std::string p = path_as_string(source_path_);
       const bool save =
           env::save_file(p.c_str(), {"//Generated by BuildCC"}, false);
       env::assert_fatal(save, fmt::format("Could not save {}", p));
diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index 4bdd7d5..c70933a 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -35,14 +35,15 @@ void LinkTarget::CacheLinkCommand() {
 
   const std::string output_target = fmt::format("{}", output_);
   const auto &target_user_schema = target_.user_;
+  const auto libs = target_user_schema.libs.GetPaths();
+  const std::vector<fs::path> lib_paths(libs.begin(), libs.end());
   command_ = target_.command_.Construct(
       target_.GetConfig().link_command,
       {
           {kOutput, output_target},
           {kCompiledSources, aggregated_compiled_sources},
           {kLibDeps,
-           fmt::format("{} {}",
-                       internal::aggregate(target_user_schema.libs.GetPaths()),
+           fmt::format("{} {}", internal::aggregate(lib_paths),
                        internal::aggregate(target_user_schema.external_libs))},
       });
 }
-- 
2.43.0


From 7bfef32466b4f4b530ff7e2bb98723c02ce123fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 17/30] fix: different sources outside the target root share an
 object file

---
 .../src/target/friend/compile_object.cpp      | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index 2da9511..bb87ea4 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -114,8 +114,9 @@ CompileObject::ConstructObjectPath(const fs::path &absolute_source_file) const {
   // Expects to convert
   // 1. {project_root_dir} / file.cpp -> file.cpp
   // 2. {project_root_dir} / folder / file.cpp -> folder / file.cpp
-  fs::path relative =
-      absolute_source_file.lexically_relative(target_.GetTargetRootDir());
+  // NOTE, The root dir can contain '..' but source files are already normalized
+  fs::path relative = absolute_source_file.lexically_relative(
+      target_.GetTargetRootDir().lexically_normal());
 
   // Expects to convert
   // 1. {project_root_dir} / .. / file.cpp -> .. / file.cpp
@@ -132,12 +133,6 @@ CompileObject::ConstructObjectPath(const fs::path &absolute_source_file) const {
                     "path -> absolute target build path. By "
                     "default converts '..' to '__'",
                     absolute_source_file.string(), relstr));
-    std::replace(relstr.begin(), relstr.end(), '.', '_');
-    // Converts above
-    // .. / file.cpp -> __ / file.cpp
-    // .. / folder / file.cpp -> __ / folder / file.cpp
-    relative = relstr;
-
     // TODO, path replacement found
     // * API
     // AddSourceAbsolute("BUILDCC_HOME / libs / fmt / build.fmt.cpp",
@@ -156,6 +151,25 @@ CompileObject::ConstructObjectPath(const fs::path &absolute_source_file) const {
     //     replacement_strategy.second);
   }
 
+  // Converts above
+  // .. / file.cpp -> __ / file.cpp
+  // .. / folder / file.cpp -> __ / folder / file.cpp
+  // NOTE, Only complete '..' folders are converted and folders that are really
+  // named like that get another '_', otherwise different sources could share an
+  // object file
+  fs::path converted;
+  for (const auto &part : relative.parent_path()) {
+    std::string folder = part.string();
+    if (folder == "..") {
+      folder = "__";
+    } else if (folder.size() > 1 &&
+               folder.find_first_not_of('_') == std::string::npos) {
+      folder += '_';
+    }
+    converted /= folder;
+  }
+  relative = converted / relative.filename();
+
   // Compute relative object path
   fs::path absolute_compiled_source = target_.GetTargetBuildDir() / relative;
   absolute_compiled_source.replace_filename(
-- 
2.43.0


From 6fadc340ececcf4869b204a95bf120412dcd96d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:47 +0000
Subject: [PATCH 18/30] fix: a source added twice is compiled twice in every
 build

---
 .../target/src/target/friend/compile_object.cpp    | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/buildcc/lib/target/src/target/friend/compile_object.cpp b/buildcc/lib/target/src/target/friend/compile_object.cpp
index bb87ea4..b79c05a 100644
--- a/buildcc/lib/target/src/target/friend/compile_object.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_object.cpp
@@ -254,8 +254,13 @@ void CompileObject::PreObjectCompile() {
 void CompileObject::CompileSources(
     std::vector<internal::PathInfo> &source_files) {
   const auto &target_user_schema = target_.user_;
-  target_user_schema.sources.GetPathInfos();
-  source_files = target_user_schema.sources.GetPathInfos();
+  // NOTE, A source that is added more than once has one object
+  std::unordered_set<std::string> unique_paths;
+  for (const auto &path_info : target_user_schema.sources.GetPathInfos()) {
+    if (unique_paths.insert(path_info.path).second) {
+      source_files.push_back(path_info);
+    }
+  }
 }
 
 void CompileObject::RecompileSources(
@@ -266,9 +271,14 @@ void CompileObject::RecompileSources(
   auto previous_source_files =
       serialization.GetLoad().sources.GetUnorderedPathInfos();
 
+  std::unordered_set<std::string> unique_paths;
   for (const auto &current_path_info :
        user_target_schema.sources.GetPathInfos()) {
     const auto &current_path = current_path_info.path;
+    // NOTE, A source that is added more than once has one object
+    if (!unique_paths.insert(current_path).second) {
+      continue;
+    }
     if (previous_source_files.count(current_path) == 0) {
       // Added
       source_files.push_back(current_path_info);
-- 
2.43.0


From d12cc3335a6455da048c529bcd03ba778ad8a376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:51 +0000
Subject: [PATCH 19/30] fix: find host tools by their full name, tolerate
 unreadable search paths

---
 .../lib/toolchain/src/api/toolchain_find.cpp  | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/buildcc/lib/toolchain/src/api/toolchain_find.cpp b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
index 9c1e621..ca352ae 100644
--- a/buildcc/lib/toolchain/src/api/toolchain_find.cpp
+++ b/buildcc/lib/toolchain/src/api/toolchain_find.cpp
@@ -42,18 +42,25 @@ std::vector<std::string> ParseEnvVarToPaths(const std::string &env_var) {
 bool ContainsToolchainExecutables(
     const fs::directory_iterator &directory_iterator,
     const buildcc::ToolchainExecutables &executables) {
-  std::unordered_set<std::string> exes(
-      {executables.assembler, executables.c_compiler, executables.cpp_compiler,
-       executables.archiver, executables.linker});
+  constexpr const char *const executable_ext =
+      buildcc::env::get_os_executable_extension();
+  buildcc::env::assert_fatal<executable_ext != nullptr>(
+      "Host executable extension not supported");
+
+  std::unordered_set<std::string> exes;
+  for (const auto &exe : {executables.assembler, executables.c_compiler,
+                          executables.cpp_compiler, executables.archiver,
+                          executables.linker}) {
+    exes.insert(fmt::format("{}{}", exe, executable_ext));
+  }
   std::error_code ec;
   for (const auto &dir_iter : directory_iterator) {
     bool is_regular_file = dir_iter.is_regular_file(ec);
     if (!is_regular_file || ec) {
       continue;
     }
-    const auto &filename_without_ext = dir_iter.path().stem().string();
     // NOTE, Must match the entire filename
-    exes.erase(filename_without_ext);
+    exes.erase(dir_iter.path().filename().string());
   }
   return exes.empty();
 }
@@ -83,11 +90,11 @@ ToolchainFind<T>::Find(const ToolchainFindConfig &config) const {
   // - Find ALL Toolchain binaries in ONE directory
   // - If matched, store that path
   for (const auto &search_path : absolute_search_paths) {
-    if (!fs::exists(search_path)) {
+    std::error_code ec;
+    if (!fs::exists(search_path, ec)) {
       continue;
     }
 
-    std::error_code ec;
     auto directory_iterator = fs::directory_iterator(search_path, ec);
     if (ec) {
       continue;
-- 
2.43.0


From b6af6d4db655461902345574794b76fb7071aa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:51 +0000
Subject: [PATCH 20/30] fix: query compilers by quoted path and join chunked
 output

---
 buildcc/toolchains/src/toolchain_infos.cpp | 25 +++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/buildcc/toolchains/src/toolchain_infos.cpp b/buildcc/toolchains/src/toolchain_infos.cpp
index 1b7a1fc..60943a1 100644
--- a/buildcc/toolchains/src/toolchain_infos.cpp
+++ b/buildcc/toolchains/src/toolchain_infos.cpp
@@ -19,6 +19,9 @@
 #include "env/assert_fatal.h"
 #include "env/command.h"
 #include "env/logging.h"
+#include "env/util.h"
+
+#include "schema/path.h"
 
 namespace {
 
@@ -38,15 +41,26 @@ buildcc::ToolchainConfig GetGccToolchainConfig() {
   return config;
 }
 
+// The output arrives in arbitrary pieces and ends with a newline
+buildcc::env::optional<std::string>
+GetOutput(const std::vector<std::string> &stdout_data) {
+  const std::string output =
+      buildcc::env::trim(fmt::format("{}", fmt::join(stdout_data, "")));
+  if (output.empty()) {
+    return {};
+  }
+  return output;
+}
+
 buildcc::env::optional<std::string>
 GetGccCompilerVersion(const buildcc::env::Command &command) {
   std::vector<std::string> stdout_data;
   bool executed = buildcc::env::Command::Execute(
       command.Construct("{compiler} -dumpversion"), {}, &stdout_data);
-  if (!executed || stdout_data.empty()) {
+  if (!executed) {
     return {};
   }
-  return stdout_data[0];
+  return GetOutput(stdout_data);
 }
 
 buildcc::env::optional<std::string>
@@ -54,16 +68,17 @@ GetGccTargetArchitecture(const buildcc::env::Command &command) {
   std::vector<std::string> stdout_data;
   bool executed = buildcc::env::Command::Execute(
       command.Construct("{compiler} -dumpmachine"), {}, &stdout_data);
-  if (!executed || stdout_data.empty()) {
+  if (!executed) {
     return {};
   }
-  return stdout_data[0];
+  return GetOutput(stdout_data);
 }
 
 buildcc::env::optional<buildcc::ToolchainCompilerInfo>
 GetGccToolchainInfo(const buildcc::ToolchainExecutables &executables) {
   buildcc::env::Command command;
-  command.AddDefaultArgument("compiler", executables.cpp_compiler);
+  command.AddDefaultArgument(
+      "compiler", fmt::format("{}", fs::path(executables.cpp_compiler)));
 
   auto op_compiler_version = GetGccCompilerVersion(command);
   auto op_target_arch = GetGccTargetArchitecture(command);
-- 
2.43.0


From 95eb955491deded1474c5b0dd4b27a51668c63b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:51 +0000
Subject: [PATCH 21/30] fix: escape strings and list each source once in
 compile_commands.json

---
 .../plugins/src/clang_compile_commands.cpp    | 43 +++++++------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/buildcc/plugins/src/clang_compile_commands.cpp b/buildcc/plugins/src/clang_compile_commands.cpp
index c1ef59f..13875e6 100644
--- a/buildcc/plugins/src/clang_compile_commands.cpp
+++ b/buildcc/plugins/src/clang_compile_commands.cpp
@@ -17,27 +17,14 @@
 #include "plugins/clang_compile_commands.h"
 
 #include <algorithm>
+#include <unordered_set>
 
 // env
 #include "env/assert_fatal.h"
 #include "env/util.h"
 
 // third party
-#include "fmt/format.h"
-#include "fmt/ranges.h"
-
-namespace {
-
-// clang-format off
-constexpr const char *const clang_compile_command_format =
-R"({{
-  "directory": "{directory}",
-  "command": "{command}",
-  "file": "{file}"
-}})";
-// clang-format on
-
-} // namespace
+#include "nlohmann/json.hpp"
 
 namespace buildcc::plugin {
 
@@ -57,27 +44,29 @@ void ClangCompileCommands::Generate() {
   }
   env::log_trace("ClangCompileCommands", "Generate -> true");
 
-  std::vector<std::string> compile_command_list;
+  using json = nlohmann::ordered_json;
+  json compile_command_list = json::array();
 
   for (const auto *t : targets_) {
-    const auto &source_files = t->GetSourceFiles();
-    for (const auto &source : source_files) {
+    // NOTE, A source can be added more than once
+    std::unordered_set<std::string> unique_sources;
+    for (const auto &source : t->GetSourceFiles()) {
+      if (!unique_sources.insert(source).second) {
+        continue;
+      }
       // DONE, Get source list name
       // DONE, Get std::vector<std::string> CompileCommand
       // DONE, Get intermediate directory from env
-      std::string sf = fmt::format("{}", source);
-      const std::string &command = t->GetCompileCommand(source);
-      std::string directory = fmt::format("{}", Project::GetBuildDir());
-
-      std::string temp = fmt::format(
-          clang_compile_command_format, fmt::arg("directory", directory),
-          fmt::arg("command", command), fmt::arg("file", sf));
-      compile_command_list.push_back(temp);
+      compile_command_list.push_back(json{
+          {"directory", path_as_string(Project::GetBuildDir())},
+          {"command", t->GetCompileCommand(source)},
+          {"file", source},
+      });
     }
   }
 
   std::string compile_commands =
-      fmt::format("[\n{}\n]", fmt::join(compile_command_list, ",\n"));
+      compile_command_list.dump(2, ' ', false, json::error_handler_t::replace);
 
   // DONE, Convert to json
   // DONE, Save file
-- 
2.43.0


From 7360bd197aa77f25926b56e727c181b485f545cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:51 +0000
Subject: [PATCH 22/30] fix: buildexe quotes the verification program

---
 buildexe/src/toolchain_setup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildexe/src/toolchain_setup.cpp b/buildexe/src/toolchain_setup.cpp
index 4d483da..6e8e5b1 100644
--- a/buildexe/src/toolchain_setup.cpp
+++ b/buildexe/src/toolchain_setup.cpp
@@ -72,7 +72,7 @@ int main() {
 
   // Run
   bool execute = env::Command::Execute(fmt::format(
-      "{executable}", fmt::arg("executable", target.GetTargetPath().string())));
+      "{executable}", fmt::arg("executable", target.GetTargetPath())));
   env::assert_fatal(execute, "Could not execute verification target");
 
   env::log_info(kTag, "*** Toolchain verification done ***");
-- 
2.43.0


From d542a7bb8b4d8b67170a71a2d59e6802e13182ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:51 +0000
Subject: [PATCH 23/30] fix: buildexe library directory constants are plain
 paths

---
 buildexe/src/args_setup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildexe/src/args_setup.cpp b/buildexe/src/args_setup.cpp
index edee4ad..6ef969d 100644
--- a/buildexe/src/args_setup.cpp
+++ b/buildexe/src/args_setup.cpp
@@ -114,7 +114,7 @@ void ArgLibsInfo::Add(CLI::App &app) {
 
     LibInfo lib_info;
     lib_info.lib_name = lib_name;
-    lib_info.absolute_lib_path = fmt::format("{}", lib_path);
+    lib_info.absolute_lib_path = path_as_string(lib_path);
     libs_info.push_back(lib_info);
 
     auto add_lib_files_cb_func = [lib_path,
-- 
2.43.0


From 67aaa6fae7c35ee79f12cbb8ba4b330964952bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:00 +0000
Subject: [PATCH 24/30] fix: buildexe ignores a failing script and splits
 config paths with spaces

---
 buildexe/buildexe.cpp            | 6 +++---
 buildexe/src/build_env_setup.cpp | 7 +++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/buildexe/buildexe.cpp b/buildexe/buildexe.cpp
index a93d554..2a6afcf 100644
--- a/buildexe/buildexe.cpp
+++ b/buildexe/buildexe.cpp
@@ -63,14 +63,14 @@ int main(int argc, char **argv) {
   Reg::Toolchain(ArgToolchainState(true)).BuildPackage(build_setup);
   Reg::Run();
 
+  // - Clang Compile Commands
+  plugin::ClangCompileCommands({&build_setup.GetUserTarget()}).Generate();
+
   // Run Target if script mode
   if (buildexe_args.GetBuildMode() == BuildExeMode::Script) {
     build_setup.RunUserTarget(buildexe_args.GetScriptInfo());
   }
 
-  // - Clang Compile Commands
-  plugin::ClangCompileCommands({&build_setup.GetUserTarget()}).Generate();
-
   return 0;
 }
 
diff --git a/buildexe/src/build_env_setup.cpp b/buildexe/src/build_env_setup.cpp
index d36360e..a24eeab 100644
--- a/buildexe/src/build_env_setup.cpp
+++ b/buildexe/src/build_env_setup.cpp
@@ -42,7 +42,7 @@ void BuildEnvSetup::RunUserTarget(const ArgScriptInfo &arg_script_info) {
   std::transform(arg_script_info.configs.begin(), arg_script_info.configs.end(),
                  std::back_inserter(configs),
                  [](const std::string &c) -> std::string {
-                   return fmt::format("--config {}", c);
+                   return fmt::format("--config {}", fs::path(c));
                  });
   std::string aggregated_configs = fmt::format("{}", fmt::join(configs, " "));
 
@@ -52,7 +52,10 @@ void BuildEnvSetup::RunUserTarget(const ArgScriptInfo &arg_script_info) {
                   fmt::arg("executable",
                            fmt::format("{}", GetUserTarget().GetTargetPath())),
                   fmt::arg("configs", aggregated_configs));
-  env::Command::Execute(command_str);
+  bool execute = env::Command::Execute(command_str);
+  env::assert_fatal(execute,
+                    fmt::format("Running '{}' failed",
+                                buildexe_args_.GetTargetInfo().name));
 }
 
 // Private
-- 
2.43.0


From 0cb98c2fa23367e140bbfac04d7bf80d21e58841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:00 +0000
Subject: [PATCH 25/30] fix: buildexe rebuilds the script in every run

---
 buildexe/src/build_env_setup.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/buildexe/src/build_env_setup.cpp b/buildexe/src/build_env_setup.cpp
index a24eeab..8096e4a 100644
--- a/buildexe/src/build_env_setup.cpp
+++ b/buildexe/src/build_env_setup.cpp
@@ -191,7 +191,17 @@ struct BuildExeLibDir {{
         user_target.GetTargetBuildDir() / "buildexe_lib_dirs.h";
     std::string data = fmt::format(
         kLibDirsFormat, fmt::arg("lib_dirs", fmt::join(lib_constants, "\r\n")));
-    env::save_file(lib_dirs_filename.string().c_str(), data, false);
+    // The generated header is an input of the user target
+    // Leave it as it is when there is nothing to change
+    std::string current_data;
+    if (!fs::exists(lib_dirs_filename) ||
+        !env::load_file(lib_dirs_filename.string().c_str(), true,
+                        &current_data) ||
+        current_data != data) {
+      bool saved =
+          env::save_file(lib_dirs_filename.string().c_str(), data, false);
+      env::assert_fatal(saved, "Could not save buildexe_lib_dirs.h");
+    }
 
     user_target.AddIncludeDirAbsolute(user_target.GetTargetBuildDir(), true);
   }
-- 
2.43.0


From 4e444c155858b74980d5b59f783c3945f0d10f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:46 +0000
Subject: [PATCH 26/30] fix: bootstrap misses changes of two header directories
 of the library

---
 bootstrap/src/build_buildcc.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bootstrap/src/build_buildcc.cpp b/bootstrap/src/build_buildcc.cpp
index fa75c46..4183db3 100644
--- a/bootstrap/src/build_buildcc.cpp
+++ b/bootstrap/src/build_buildcc.cpp
@@ -58,6 +58,7 @@ void buildcc_cb(BaseTarget &target, const TargetInfo &nlohmann_json_ho,
   target.GlobHeaders("lib/target/include/target");
   target.GlobHeaders("lib/target/include/target/api");
   target.GlobHeaders("lib/target/include/target/common");
+  target.GlobHeaders("lib/target/include/target/custom_generator");
   target.GlobHeaders("lib/target/include/target/friend");
   target.GlobHeaders("lib/target/include/target/interface");
 
@@ -65,6 +66,7 @@ void buildcc_cb(BaseTarget &target, const TargetInfo &nlohmann_json_ho,
   target.GlobSources("lib/args/src");
   target.AddIncludeDir("lib/args/include");
   target.GlobHeaders("lib/args/include/args");
+  target.GlobHeaders("lib/args/include/args/register");
 
   // Specialized Toolchains
   target.GlobSources("toolchains/src");
-- 
2.43.0


From 3df28576b4aa7e8612b2c4d7f4b7999c7d351ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:59 +0000
Subject: [PATCH 27/30] fix: globbing adds directories named like sources or
 headers

---
 buildcc/lib/target/include/target/api/include_api.h | 3 ++-
 buildcc/lib/target/include/target/api/source_api.h  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/buildcc/lib/target/include/target/api/include_api.h b/buildcc/lib/target/include/target/api/include_api.h
index d6702dc..e61d84b 100644
--- a/buildcc/lib/target/include/target/api/include_api.h
+++ b/buildcc/lib/target/include/target/api/include_api.h
@@ -53,7 +53,8 @@ public:
     auto &t = static_cast<T &>(*this);
 
     for (const auto &p : fs::directory_iterator(absolute_path)) {
-      if (t.toolchain_.GetConfig().IsValidHeader(p.path())) {
+      if (p.is_regular_file() &&
+          t.toolchain_.GetConfig().IsValidHeader(p.path())) {
         AddHeaderAbsolute(p.path());
       }
     }
diff --git a/buildcc/lib/target/include/target/api/source_api.h b/buildcc/lib/target/include/target/api/source_api.h
index d367415..e4b86f0 100644
--- a/buildcc/lib/target/include/target/api/source_api.h
+++ b/buildcc/lib/target/include/target/api/source_api.h
@@ -47,7 +47,8 @@ public:
     auto &t = static_cast<T &>(*this);
 
     for (const auto &p : fs::directory_iterator(absolute_source_dir)) {
-      if (t.toolchain_.GetConfig().IsValidSource(p.path())) {
+      if (p.is_regular_file() &&
+          t.toolchain_.GetConfig().IsValidSource(p.path())) {
         AddSourceAbsolute(p.path());
       }
     }
@@ -69,7 +70,8 @@ public:
     fs::path absolute_input_path =
         t.env_.GetTargetRootDir() / relative_to_target_path;
     for (const auto &p : fs::directory_iterator(absolute_input_path)) {
-      if (t.toolchain_.GetConfig().IsValidSource(p.path())) {
+      if (p.is_regular_file() &&
+          t.toolchain_.GetConfig().IsValidSource(p.path())) {
         AddSourceAbsolute(p.path());
       }
     }
-- 
2.43.0


From 9257d9f1b223f060cff0cc036f4797a91a887e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:36 +0000
Subject: [PATCH 28/30] fix: precompiled header of another language is kept

A target whose sources change from C to C++ (or back) kept using the
precompiled header that had been compiled for the other language.
---
 buildcc/lib/target/src/target/friend/compile_pch.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buildcc/lib/target/src/target/friend/compile_pch.cpp b/buildcc/lib/target/src/target/friend/compile_pch.cpp
index 19987c6..7b0b5c6 100644
--- a/buildcc/lib/target/src/target/friend/compile_pch.cpp
+++ b/buildcc/lib/target/src/target/friend/compile_pch.cpp
@@ -106,6 +106,9 @@ void CompilePch::BuildCompile() {
       // TODO, Replace this with fs::exists to check if compiled pch file is
       // present or no
       target_.dirty_ = true;
+    } else if (!fs::exists(source_path_)) {
+      // The pch has been compiled for another language
+      target_.dirty_ = true;
     }
   }
 
@@ -113,6 +116,8 @@ void CompilePch::BuildCompile() {
     env::assert_fatal(target_.serialization_.InvalidateFile(),
                       "Could not invalidate previous build");
     AggregateToFile(header_path_, target_.GetPchFiles());
+    // NOTE, Only keep the source for the language of this pch
+    fs::remove(ConstructSourcePath(!target_.GetState().ContainsCpp()));
     if (!fs::exists(source_path_)) {
       const std::string p = path_as_string(source_path_);
       const bool save =
-- 
2.43.0


From 7db55dd69bd5e458c8243ec85777b99d17b32762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:36 +0000
Subject: [PATCH 29/30] fix: changing the type of a target does not link it
 again

The type was never stored in the record, an executable that becomes a
library was reported as built although the library did not exist.
---
 buildcc/lib/target/src/target/friend/link_target.cpp | 2 ++
 buildcc/lib/target/src/target/target.cpp             | 1 +
 2 files changed, 3 insertions(+)

diff --git a/buildcc/lib/target/src/target/friend/link_target.cpp b/buildcc/lib/target/src/target/friend/link_target.cpp
index c70933a..f0fc642 100644
--- a/buildcc/lib/target/src/target/friend/link_target.cpp
+++ b/buildcc/lib/target/src/target/friend/link_target.cpp
@@ -78,6 +78,8 @@ void LinkTarget::BuildLink() {
   } else {
     if (target_.dirty_) {
       // Skip all the other else if checks
+    } else if (target_load_schema.type != target_user_schema.type) {
+      target_.dirty_ = true;
     } else if (!(target_load_schema.link_flags ==
                  target_user_schema.link_flags)) {
       target_.dirty_ = true;
diff --git a/buildcc/lib/target/src/target/target.cpp b/buildcc/lib/target/src/target/target.cpp
index 48481da..9a81871 100644
--- a/buildcc/lib/target/src/target/target.cpp
+++ b/buildcc/lib/target/src/target/target.cpp
@@ -53,6 +53,7 @@ void Target::Initialize() {
       "Environment is not initialized. Use the buildcc::Project::Init API");
   env::assert_fatal(IsValidTargetType(type_), "Invalid Target Type");
   fs::create_directories(GetTargetBuildDir());
+  user_.type = type_;
 
   // String updates
   unique_id_ = fmt::format("[{}] {}", toolchain_.GetName(), name_);
-- 
2.43.0


From d2df1c83d6b9561168a9f5d4c14d5d096963fd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:15 +0000
Subject: [PATCH 30/30] fix: dependency checks take exponential time

---
 buildcc/lib/args/src/register.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/buildcc/lib/args/src/register.cpp b/buildcc/lib/args/src/register.cpp
index 4ad41a3..d835e52 100644
--- a/buildcc/lib/args/src/register.cpp
+++ b/buildcc/lib/args/src/register.cpp
@@ -18,6 +18,7 @@
 
 #include <filesystem>
 #include <queue>
+#include <unordered_set>
 
 #include "fmt/format.h"
 
@@ -47,6 +48,8 @@ void DepDetectCyclicDependency(const tf::Task &target_task,
                                const std::string &match) {
   std::queue<tf::Task> taskqueue;
   taskqueue.push(target_task);
+  // NOTE, A task can be reached through many paths
+  std::unordered_set<std::size_t> visited;
 
   while (!taskqueue.empty()) {
     tf::Task current_task = taskqueue.front();
@@ -54,7 +57,9 @@ void DepDetectCyclicDependency(const tf::Task &target_task,
 
     current_task.for_each_successor([&](const tf::Task &t) {
       buildcc::env::log_trace("for_each_successor", t.name());
-      taskqueue.push(t);
+      if (visited.insert(t.hash_value()).second) {
+        taskqueue.push(t);
+      }
       buildcc::env::assert_fatal(
           !(t.name() == match),
           fmt::format("Cyclic dependency detected when adding '{}'", t.name()));
-- 
2.43.0

