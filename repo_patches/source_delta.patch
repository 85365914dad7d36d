From 855c8a395ccd601ee0a8c6aa7d7e3e7c4ec40bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 1/8] fix: check the version and variant digits in the GUID
 validators

The validators are documented to accept version 4 GUIDs only, but accepted any
digit at the version and variant positions.
---
 rst/guid/guid.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rst/guid/guid.cc b/rst/guid/guid.cc
index 988bcbd..cdb3632 100644
--- a/rst/guid/guid.cc
+++ b/rst/guid/guid.cc
@@ -57,6 +57,16 @@ bool IsValidGuidInternal(const std::string_view guid, const Strict strict) {
     if (i == 8 || i == 13 || i == 18 || i == 23) {
       if (current != '-')
         return false;
+    } else if (i == 14) {
+      // The version.
+      if (current != '4')
+        return false;
+    } else if (i == 19) {
+      // The variant.
+      if (current != '8' && current != '9' && current != 'a' &&
+          current != 'b' && (strict || (current != 'A' && current != 'B'))) {
+        return false;
+      }
     } else {
       if (strict) {
         if (!IsLowerHexDigit(current))
-- 
2.43.0


From 8a885fb50f1cde71a5499855da0188d3ac09452b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 2/8] fix: reject INT64_MIN in Value(int64_t)

std::abs() of the most negative integer overflows, so the range check passed.
---
 rst/value/value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rst/value/value.h b/rst/value/value.h
index c8a219a..d24e2f7 100644
--- a/rst/value/value.h
+++ b/rst/value/value.h
@@ -138,7 +138,7 @@ class Value {
   // Can store |2^53 - 1| at maximum since it's a max safe integer that can be
   // stored in JavaScript.
   explicit Value(int64_t value) : Value(static_cast<double>(value)) {
-    RST_DCHECK(std::abs(value) <= kMaxSafeInteger);
+    RST_DCHECK(value >= -kMaxSafeInteger && value <= kMaxSafeInteger);
   }
 
   explicit Value(double value) : type_(Type::kNumber), number_(value) {
-- 
2.43.0


From ad03bf9dc1e0a3fb8d63ac518f3a50736de32300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 3/8] fix: allow to assign a Value from an element nested
 inside it

The old content, which contains the element, was destroyed before the element
was moved out of it.
---
 rst/value/value.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rst/value/value.cc b/rst/value/value.cc
index 712bec5..b1427db 100644
--- a/rst/value/value.cc
+++ b/rst/value/value.cc
@@ -58,11 +58,14 @@ Value::Value(Value&& other) noexcept { MoveConstruct(std::move(other)); }
 Value::~Value() { Cleanup(); }
 
 Value& Value::operator=(Value&& rhs) noexcept {
-  if (type_ == rhs.type_) {
-    MoveAssign(std::move(rhs));
+  // |rhs| can be nested inside |*this|, so it has to be taken out before the old
+  // content is destroyed.
+  Value value(std::move(rhs));
+  if (type_ == value.type_) {
+    MoveAssign(std::move(value));
   } else {
     Cleanup();
-    MoveConstruct(std::move(rhs));
+    MoveConstruct(std::move(value));
   }
 
   return *this;
-- 
2.43.0


From 2c173ed46feeb102e988e4fb8bd686b5140f6714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 4/8] fix: do not touch OneShotTimer after its task in
 FireNow()

The task may restart the timer, which was then stopped, or destroy it, which was
then written to. RunTask() already updates the state before running the task.
---
 rst/timer/one_shot_timer.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rst/timer/one_shot_timer.cc b/rst/timer/one_shot_timer.cc
index 95c7735..ff696ae 100644
--- a/rst/timer/one_shot_timer.cc
+++ b/rst/timer/one_shot_timer.cc
@@ -54,7 +54,6 @@ void OneShotTimer::Start(std::function<void()>&& task,
 void OneShotTimer::FireNow() {
   RST_DCHECK(IsRunning());
   RunTask(task_id_);
-  is_running_ = false;
 }
 
 void OneShotTimer::RunTask(const uint64_t task_id) {
-- 
2.43.0


From 623e3c65ec0a584307c3ede47b1daedbf80c0352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 5/8] fix: remove the temp file when WriteImportantFile() fails
 to write it

---
 rst/files/file_utils.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rst/files/file_utils.cc b/rst/files/file_utils.cc
index fd32722..b3a139a 100644
--- a/rst/files/file_utils.cc
+++ b/rst/files/file_utils.cc
@@ -112,7 +112,13 @@ Status WriteImportantFile(const filesystem::path& filename,
                           const std::string_view data) {
   const filesystem::path temp_filename(
       StrCat({filename.native(), Guid().AsStringView().value(), ".tmp"}));
-  RST_TRY(WriteFile(temp_filename.c_str(), "wxb", data));
+  auto status = WriteFile(temp_filename.c_str(), "wxb", data);
+  if (status.err()) {
+    // The temp file exists only if it was opened.
+    if (!status.GetError()->IsA<FileOpenError>())
+      (void)Remove(temp_filename);
+    return status;
+  }
 
   if (!Rename(temp_filename, filename)) {
     (void)Remove(temp_filename);
-- 
2.43.0


From 0b5ee88dce24be54a7d92b1f3fd2f67079b4a8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 6/8] fix: log messages with embedded NUL characters completely

The %.*s conversion stops at the first NUL.
---
 rst/logger/file_name_sink.cc | 9 ++++-----
 rst/logger/file_ptr_sink.cc  | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/rst/logger/file_name_sink.cc b/rst/logger/file_name_sink.cc
index 486b287..4a9379d 100644
--- a/rst/logger/file_name_sink.cc
+++ b/rst/logger/file_name_sink.cc
@@ -27,7 +27,7 @@
 
 #include "rst/logger/file_name_sink.h"
 
-#include <limits>
+#include <cstdio>
 #include <utility>
 
 #include "rst/check/check.h"
@@ -55,10 +55,9 @@ StatusOr<FileNameSink::Ptr> FileNameSink::Create(
 void FileNameSink::Log(const std::string_view message) {
   std::lock_guard lock(mutex_);
 
-  RST_DCHECK(message.size() <= std::numeric_limits<int>::max());
-  RST_CHECK(std::fprintf(log_file_.get(), "%.*s\n",
-                         static_cast<int>(message.size()),
-                         message.data()) >= 0);
+  RST_CHECK(std::fwrite(message.data(), 1, message.size(), log_file_.get()) ==
+            message.size());
+  RST_CHECK(std::fputc('\n', log_file_.get()) != EOF);
   RST_CHECK(std::fflush(log_file_.get()) == 0);
 }
 
diff --git a/rst/logger/file_ptr_sink.cc b/rst/logger/file_ptr_sink.cc
index 80c5549..867383b 100644
--- a/rst/logger/file_ptr_sink.cc
+++ b/rst/logger/file_ptr_sink.cc
@@ -27,7 +27,7 @@
 
 #include "rst/logger/file_ptr_sink.h"
 
-#include <limits>
+#include <cstdio>
 
 #include "rst/check/check.h"
 
@@ -45,10 +45,9 @@ FilePtrSink::~FilePtrSink() = default;
 void FilePtrSink::Log(const std::string_view message) {
   std::lock_guard lock(mutex_);
 
-  RST_DCHECK(message.size() <= std::numeric_limits<int>::max());
-  RST_CHECK(std::fprintf(file_.get(), "%.*s\n",
-                         static_cast<int>(message.size()),
-                         message.data()) >= 0);
+  RST_CHECK(std::fwrite(message.data(), 1, message.size(), file_.get()) ==
+            message.size());
+  RST_CHECK(std::fputc('\n', file_.get()) != EOF);
   RST_CHECK(std::fflush(file_.get()) == 0);
 }
 
-- 
2.43.0


From abd7f064224aa8b51f739649d568d4fc4862f366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 7/8] fix: do not lose a task pushed while an idle pool thread
 times out

A thread whose wait timed out exited without looking at the queue again, and was
still counted as an existing thread until it took the lock once more. A task
pushed in between started no new thread and stayed in the queue.
---
 rst/task_runner/thread_pool_task_runner.cc | 53 +++++++++++-----------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/rst/task_runner/thread_pool_task_runner.cc b/rst/task_runner/thread_pool_task_runner.cc
index 660d320..7ed9e04 100644
--- a/rst/task_runner/thread_pool_task_runner.cc
+++ b/rst/task_runner/thread_pool_task_runner.cc
@@ -55,9 +55,10 @@ ThreadPoolTaskRunner::DelayedTaskRunner::~DelayedTaskRunner() {
 
 void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
   std::function<void()> task;
+  std::unique_lock lock(thread_mutex_);
+  // Runs with the lock held since the decision to exit, otherwise a task that is
+  // pushed in between would rely on this thread.
   RST_DEFER([this]() {
-    std::lock_guard lock(thread_mutex_);
-
     const auto it = thread_id_to_thread_map_.find(std::this_thread::get_id());
     RST_DCHECK(it != thread_id_to_thread_map_.cend());
     it->second.detach();
@@ -67,42 +68,40 @@ void ThreadPoolTaskRunner::DelayedTaskRunner::WaitAndRunTasks() {
   });
 
   while (true) {
-    auto had_items = false;
-
-    {
-      std::unique_lock lock(thread_mutex_);
-
-      while (tasks_.empty() && !should_exit_) {
-        waiting_threads_num_++;
-        RST_DEFER([this]() { waiting_threads_num_--; });
-
-        if (thread_cv_.wait_for(lock, keep_alive_time_) ==
-            std::cv_status::timeout) {
-          return;
-        }
-      }
+    while (tasks_.empty() && !should_exit_) {
+      waiting_threads_num_++;
+      RST_DEFER([this]() { waiting_threads_num_--; });
 
-      if (should_exit_)
+      if (thread_cv_.wait_for(lock, keep_alive_time_) ==
+              std::cv_status::timeout &&
+          tasks_.empty()) {
         return;
-
-      RST_DCHECK(!tasks_.empty());
-      auto& front = tasks_.front();
-      if (front.iterations == 0) {
-        task = std::move(front.task);
-        tasks_.pop();
-      } else {
-        task = front.task;
-        front.iterations--;
       }
+    }
 
-      had_items = !tasks_.empty();
+    if (should_exit_)
+      return;
+
+    RST_DCHECK(!tasks_.empty());
+    auto& front = tasks_.front();
+    if (front.iterations == 0) {
+      task = std::move(front.task);
+      tasks_.pop();
+    } else {
+      task = front.task;
+      front.iterations--;
     }
 
+    const auto had_items = !tasks_.empty();
+    lock.unlock();
+
     if (had_items)
       thread_cv_.notify_one();
 
     task();
     task = nullptr;
+
+    lock.lock();
   }
 }
 
-- 
2.43.0


From 0fb266aff8085c882fde651313fab108fc275065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:56 +0000
Subject: [PATCH 8/8] fix: do not write past the end of the result in Format()
 with extra arguments

---
 rst/strings/format.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rst/strings/format.cc b/rst/strings/format.cc
index afc7c85..ebfd7d8 100644
--- a/rst/strings/format.cc
+++ b/rst/strings/format.cc
@@ -48,8 +48,8 @@ std::string FormatAndReturnString(const NotNull<const char*> not_null_format,
     RST_DCHECK(values != nullptr);
     new_size += values[i].size();
   }
-  RST_DCHECK(new_size >= size * 2);
-  new_size -= size * 2;
+  // The placeholders are not subtracted, since with extra arguments there are
+  // fewer of them and the text is written before that is detected.
 
   std::string output;
   StringResizeUninitialized(&output, new_size);
-- 
2.43.0

