From 4575c3699195ee9a09675fa7d03083c7b284231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 01/45] fix: do not inspect the top of an empty tag stack after
 the root is reduced

---
 src/core/Stage2RunnerNonRecursive.hpp | 2 +-
 src/core/Stage3RunnerNonRecursive.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index c40bcf5..8760d3e 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -55,7 +55,7 @@ protected:
   static void push_value(const semantic_value_type val, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
     if (val == 0) return;
-    if (detail::isValueTag(tags.back())) {
+    if (!tags.empty() && detail::isValueTag(tags.back())) {
       tags.back() = static_cast<detail::StackEntryTag>(static_cast<int>(tags.back()) + 1);
     } else {
       tags.emplace_back(detail::StackEntryTag::VALUE);
diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index dbfb854..956fe0f 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -118,7 +118,7 @@ private:
   template <typename Iterator>
   static void append_value(Iterator& values_next_it, int n, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
-    if (detail::isValueTag(tags.back())) {
+    if (!tags.empty() && detail::isValueTag(tags.back())) {
       tags.back() = static_cast<detail::StackEntryTag>(static_cast<int>(tags.back()) + n);
     } else {
       tags.emplace_back(static_cast<detail::StackEntryTag>(n));
-- 
2.43.0


From ff175736e3f861b056604b67804198d0570abac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 02/45] fix: recursive Stage3Runner consumes the banks after
 the one its root ended in

---
 src/core/Stage3Runner.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Stage3Runner.hpp b/src/core/Stage3Runner.hpp
index 3e70758..e551263 100644
--- a/src/core/Stage3Runner.hpp
+++ b/src/core/Stage3Runner.hpp
@@ -31,7 +31,10 @@ private:
 
     reduce();
 
-    release_bank();
+    // The root may have ended exactly at the end of a bank: consume what is left.
+    do {
+      release_bank();
+    } while (acquire_bank() != NULL);
   }
 
   SVCapsule reduce()
-- 
2.43.0


From 00ef4606e24953d52218dd12276b2bed9137fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 03/45] fix: recursive stage runners start without a listener
 instead of with a wild one

---
 src/core/Stage2Runner.hpp | 4 ++--
 src/core/Stage3Runner.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/Stage2Runner.hpp b/src/core/Stage2Runner.hpp
index 68fcc7f..560751f 100644
--- a/src/core/Stage2Runner.hpp
+++ b/src/core/Stage2Runner.hpp
@@ -10,8 +10,8 @@ namespace Centaurus
 class Stage2Runner : public BaseRunner
 {
   friend BaseRunner;
-  ReductionListener m_listener;
-  TransferListener m_xferlistener;
+  ReductionListener m_listener = nullptr;
+  TransferListener m_xferlistener = nullptr;
   void *m_listener_context;
   int m_current_bank;
   std::vector<uint64_t> val_stack;
diff --git a/src/core/Stage3Runner.hpp b/src/core/Stage3Runner.hpp
index e551263..659accb 100644
--- a/src/core/Stage3Runner.hpp
+++ b/src/core/Stage3Runner.hpp
@@ -7,8 +7,8 @@ namespace Centaurus
 class Stage3Runner : public BaseRunner
 {
   friend BaseRunner;
-  ReductionListener m_listener;
-  TransferListener m_xferlistener;
+  ReductionListener m_listener = nullptr;
+  TransferListener m_xferlistener = nullptr;
   void *m_listener_context;
   int m_current_bank;
   int m_counter;
-- 
2.43.0


From 5e93799ae7d59827ad5dcb3bbc81c60bad3cf56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 04/45] fix: do not leak the descriptor of the shared window in
 stages 2 and 3

---
 src/core/BaseRunner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index 27b5f31..dc4adcf 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -250,7 +250,7 @@ protected:
     ftruncate(fd, get_window_size());
     m_sub_window  = mmap(NULL, get_sub_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
     m_main_window = mmap(NULL, get_main_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, get_sub_window_size());
-    if (is_allocating) close(fd);
+    close(fd);
 #endif
   }
   void release_memory(bool is_finalizing)
-- 
2.43.0


From 914ddbfa6f9257dae27fb7824dcea140967a8486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 05/45] fix: free the captured result chunks with the
 Stage1Runner that owns them

---
 src/core/Stage1Runner.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Stage1Runner.hpp b/src/core/Stage1Runner.hpp
index d092600..bdc2f38 100644
--- a/src/core/Stage1Runner.hpp
+++ b/src/core/Stage1Runner.hpp
@@ -96,6 +96,7 @@ public:
     create_semaphore();
   }
   virtual ~Stage1Runner() {
+    for (auto& chunk : result_chunks_) delete[] reinterpret_cast<const char*>(chunk.begin());
     close_semaphore(true);
     release_memory(true);
   }
-- 
2.43.0


From 069f321f81c1a23c7f530102869470f513acfb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 06/45] fix: a run killed earlier under the same pid no longer
 breaks the next one

---
 src/core/BaseRunner.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index dc4adcf..1ef9d23 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -246,6 +246,8 @@ protected:
     m_sub_window  = MapViewOfFile(m_mem_handle, FILE_MAP_ALL_ACCESS, 0, 0, get_sub_window_size());
     m_main_window = MapViewOfFile(m_mem_handle, FILE_MAP_ALL_ACCESS, 0, get_sub_window_size(), get_main_window_size());
 #elif defined(CENTAURUS_BUILD_LINUX)
+    // A killed process with the same pid may have left its window behind.
+    if (is_allocating) shm_unlink(m_memory_name);
     int fd = shm_open(m_memory_name, (is_allocating) ? O_RDWR | O_CREAT : O_RDWR, 0600);
     ftruncate(fd, get_window_size());
     m_sub_window  = mmap(NULL, get_sub_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
@@ -272,6 +274,8 @@ protected:
 #if defined(CENTAURUS_BUILD_WINDOWS)
     m_slave_lock = CreateSemaphoreA(NULL, 0, m_bank_num, m_slave_lock_name);
 #elif defined(CENTAURUS_BUILD_LINUX)
+    // A killed process with the same pid may have left its semaphore behind.
+    sem_unlink(m_slave_lock_name);
     m_slave_lock = sem_open(m_slave_lock_name, O_CREAT | O_EXCL, 0600, 0);
 #endif
   }
-- 
2.43.0


From 9ca76baf19c968fda37f2460f2386de71fa9b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 07/45] fix: report system call failures while setting up a run
 instead of crashing later

---
 src/core/BaseRunner.hpp               | 39 +++++++++++++++++++++++----
 src/core/Context.hpp                  | 31 ++++++++++++++-------
 src/core/Exception.hpp                |  2 ++
 src/core/Stage1Runner.hpp             |  7 ++++-
 src/core/Stage2Runner.hpp             |  7 ++++-
 src/core/Stage2RunnerNonRecursive.hpp |  7 ++++-
 6 files changed, 75 insertions(+), 18 deletions(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index 1ef9d23..ae44f7a 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -1,9 +1,13 @@
 #pragma once
 
 #include <stdio.h>
+#include <errno.h>
+#include <string.h>
 #include <atomic>
+#include <string>
 
 #include "BaseListener.hpp"
+#include "Exception.hpp"
 #include "Platform.hpp"
 
 #define ALIGN_NEXT(x, a) (((x) + (a) - 1) / (a) * (a))
@@ -142,14 +146,20 @@ public:
 		sprintf(m_slave_lock_name, "%s%s[%u]SlaveLock", PROGRAM_UUID, PROGRAM_NAME, pid);
 #elif defined(CENTAURUS_BUILD_LINUX)
         int fd = open(filename, O_RDONLY);
+        if (fd < 0) throw_system_error("open", errno);
 
         struct stat sb;
-        fstat(fd, &sb);
+        if (fstat(fd, &sb) < 0) {
+            int err = errno;
+            close(fd);
+            throw_system_error("fstat", err);
+        }
         m_input_size = sb.st_size;
 
         m_input_window = mmap(NULL, sb.st_size, PROT_READ, MAP_SHARED, fd, 0);
-
+        int err = errno;
         close(fd);
+        if (m_input_window == MAP_FAILED) throw_system_error("mmap", err);
 
         snprintf(m_memory_name, sizeof(m_memory_name), "/%s%s[%d]Window", PROGRAM_UUID, PROGRAM_NAME, pid);
 
@@ -238,6 +248,12 @@ private:
   }
 
 protected:
+#if defined(CENTAURUS_BUILD_LINUX)
+  [[noreturn]] static void throw_system_error(const char *call, int err)
+  {
+    throw SimpleException(std::string(call) + ": " + strerror(err));
+  }
+#endif
   void acquire_memory(bool is_allocating)
   {
 #if defined(CENTAURUS_BUILD_WINDOWS)
@@ -249,10 +265,21 @@ protected:
     // A killed process with the same pid may have left its window behind.
     if (is_allocating) shm_unlink(m_memory_name);
     int fd = shm_open(m_memory_name, (is_allocating) ? O_RDWR | O_CREAT : O_RDWR, 0600);
-    ftruncate(fd, get_window_size());
-    m_sub_window  = mmap(NULL, get_sub_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
-    m_main_window = mmap(NULL, get_main_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, get_sub_window_size());
+    if (fd < 0) throw_system_error("shm_open", errno);
+    m_sub_window = m_main_window = MAP_FAILED;
+    const char *call = "ftruncate";
+    if (ftruncate(fd, get_window_size()) == 0) {
+      call = "mmap";
+      m_sub_window = mmap(NULL, get_sub_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
+      if (m_sub_window != MAP_FAILED)
+        m_main_window = mmap(NULL, get_main_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, get_sub_window_size());
+    }
+    int err = errno;
     close(fd);
+    if (m_main_window == MAP_FAILED) {
+      release_memory(is_allocating);
+      throw_system_error(call, err);
+    }
 #endif
   }
   void release_memory(bool is_finalizing)
@@ -277,6 +304,7 @@ protected:
     // A killed process with the same pid may have left its semaphore behind.
     sem_unlink(m_slave_lock_name);
     m_slave_lock = sem_open(m_slave_lock_name, O_CREAT | O_EXCL, 0600, 0);
+    if (m_slave_lock == SEM_FAILED) throw_system_error("sem_open", errno);
 #endif
   }
   void open_semaphore()
@@ -285,6 +313,7 @@ protected:
     m_slave_lock = OpenSemaphoreA(SYNCHRONIZE, FALSE, m_slave_lock_name);
 #elif defined(CENTAURUS_BUILD_LINUX)
     m_slave_lock = sem_open(m_slave_lock_name, 0);
+    if (m_slave_lock == SEM_FAILED) throw_system_error("sem_open", errno);
 #endif
   }
   void release_semaphore() {
diff --git a/src/core/Context.hpp b/src/core/Context.hpp
index 2f4e527..5f9a62a 100644
--- a/src/core/Context.hpp
+++ b/src/core/Context.hpp
@@ -94,22 +94,33 @@ public:
         ParseContext<TCHAR> context{m_callbacks, nullptr};
 
         std::vector<BaseRunner *> runners;
-        runners.push_back(new Stage1Runner{ input_path, &m_parser, 8 * 1024 * 1024, worker_num * 2 });
-        for (int i = 0; i < worker_num; i++)
+        try
         {
-            Stage2Runner *st2 = new Stage2Runner{input_path, 8 * 1024 * 1024, worker_num * 2, pid, static_cast<void *>(&context) };
+            runners.push_back(new Stage1Runner{ input_path, &m_parser, 8 * 1024 * 1024, worker_num * 2 });
+            for (int i = 0; i < worker_num; i++)
+            {
+                Stage2Runner *st2 = new Stage2Runner{input_path, 8 * 1024 * 1024, worker_num * 2, pid, static_cast<void *>(&context) };
 
-            st2->register_listener(callback);
+                st2->register_listener(callback);
 
-            runners.push_back(st2);
-        }
-        Stage3Runner *st3 = new Stage3Runner{ input_path, 8 * 1024 * 1024, worker_num * 2, pid, static_cast<void *>(&context) };
+                runners.push_back(st2);
+            }
+            Stage3Runner *st3 = new Stage3Runner{ input_path, 8 * 1024 * 1024, worker_num * 2, pid, static_cast<void *>(&context) };
 
-        st3->register_listener(callback);
+            st3->register_listener(callback);
 
-        runners.push_back(st3);
+            runners.push_back(st3);
 
-        context.m_window = st3->get_input();
+            context.m_window = st3->get_input();
+        }
+        catch (...)
+        {
+            for (auto p : runners)
+            {
+                delete p;
+            }
+            throw;
+        }
 
         for (auto p : runners)
         {
diff --git a/src/core/Exception.hpp b/src/core/Exception.hpp
index 3ab2ad9..ff06f9f 100644
--- a/src/core/Exception.hpp
+++ b/src/core/Exception.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <exception>
+#include <sstream>
+#include <string>
 
 namespace Centaurus
 {
diff --git a/src/core/Stage1Runner.hpp b/src/core/Stage1Runner.hpp
index bdc2f38..91224d7 100644
--- a/src/core/Stage1Runner.hpp
+++ b/src/core/Stage1Runner.hpp
@@ -93,7 +93,12 @@ public:
     : BaseRunner(filename, bank_size, bank_num), m_parser(parser), is_dry(is_dry), is_result_captured(is_result_captured)
   {
     acquire_memory(true);
-    create_semaphore();
+    try {
+      create_semaphore();
+    } catch (...) {
+      release_memory(true);
+      throw;
+    }
   }
   virtual ~Stage1Runner() {
     for (auto& chunk : result_chunks_) delete[] reinterpret_cast<const char*>(chunk.begin());
diff --git a/src/core/Stage2Runner.hpp b/src/core/Stage2Runner.hpp
index 560751f..b21129d 100644
--- a/src/core/Stage2Runner.hpp
+++ b/src/core/Stage2Runner.hpp
@@ -124,7 +124,12 @@ public:
     : BaseRunner(filename, bank_size, bank_num, master_pid), m_listener_context(context), reduction_counter(counter)
   {
     acquire_memory(false);
-    open_semaphore();
+    try {
+      open_semaphore();
+    } catch (...) {
+      release_memory(false);
+      throw;
+    }
   }
   virtual ~Stage2Runner()
   {
diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index 8760d3e..2eb85b8 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -208,7 +208,12 @@ public:
     : NonRecursiveReductionRunner(filename, bank_size, bank_num, master_pid, context, counter)
   {
     acquire_memory(false);
-    open_semaphore();
+    try {
+      open_semaphore();
+    } catch (...) {
+      release_memory(false);
+      throw;
+    }
   }
   virtual ~Stage2Runner()
   {
-- 
2.43.0


From aeb8995f56e8c56641a21c2734575fadcc83a986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 08/45] fix: keep readable zero bytes behind the mapped input,
 whatever its size

---
 src/core/BaseRunner.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index ae44f7a..c90ebea 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -156,10 +156,20 @@ public:
         }
         m_input_size = sb.st_size;
 
-        m_input_window = mmap(NULL, sb.st_size, PROT_READ, MAP_SHARED, fd, 0);
+        // The parser reads its input in blocks and up to a terminating zero: reserve at
+        // least one zero-filled page behind the file, which also makes empty files mappable.
+        void *window = mmap(NULL, get_input_window_size(), PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
+        if (window != MAP_FAILED && m_input_size > 0 &&
+            mmap(window, m_input_size, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) {
+            int err = errno;
+            munmap(window, get_input_window_size());
+            errno = err;
+            window = MAP_FAILED;
+        }
         int err = errno;
         close(fd);
-        if (m_input_window == MAP_FAILED) throw_system_error("mmap", err);
+        if (window == MAP_FAILED) throw_system_error("mmap", err);
+        m_input_window = window;
 
         snprintf(m_memory_name, sizeof(m_memory_name), "/%s%s[%d]Window", PROGRAM_UUID, PROGRAM_NAME, pid);
 
@@ -171,7 +181,7 @@ public:
 #if defined(CENTAURUS_BUILD_WINDOWS)
         UnmapViewOfFile(m_input_window);
 #elif defined(CENTAURUS_BUILD_LINUX)
-        munmap(const_cast<void *>(m_input_window), m_input_size);
+        munmap(const_cast<void *>(m_input_window), get_input_window_size());
 #endif
 	}
 public:
@@ -249,6 +259,11 @@ private:
 
 protected:
 #if defined(CENTAURUS_BUILD_LINUX)
+  size_t get_input_window_size() const
+  {
+    size_t page_size = sysconf(_SC_PAGESIZE);
+    return ALIGN_NEXT(m_input_size, page_size) + page_size;
+  }
   [[noreturn]] static void throw_system_error(const char *call, int err)
   {
     throw SimpleException(std::string(call) + ": " + strerror(err));
-- 
2.43.0


From a3328216fbdcc71be4793dc8659b48b406797903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 09/45] fix: the serialised stage 2 output of a bank never
 exceeds the bank

---
 src/core/Stage2RunnerNonRecursive.hpp | 30 +++++++++-------
 src/core/Stage3RunnerNonRecursive.hpp | 51 +++++++++++++++------------
 2 files changed, 46 insertions(+), 35 deletions(-)

diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index 2eb85b8..974b0e3 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -158,19 +158,25 @@ private:
       }
     }
 #if PYCENTAURUS
+    // One word per tag, in stack order: never more words than the markers they stand for.
     auto it = src;
-    *it++ = starts.size();
-    std::memcpy(it, starts.data(), starts.size()*sizeof(CSTMarker));
-    it += starts.size();
-    *it++ = ends.size();
-    std::memcpy(it, ends.data(), ends.size()*sizeof(CSTMarker));
-    it += ends.size();
-    *it++ = values.size();
-    std::memcpy(it, values.data(), values.size()*sizeof(semantic_value_type));
-    it += values.size();
-    *it++ = tags.size();
-    std::memcpy(it, tags.data(), tags.size()*sizeof(detail::StackEntryTag));
-    assert(reinterpret_cast<uint64_t*>(reinterpret_cast<detail::StackEntryTag*>(it) + tags.size()) < src + m_bank_size / 8);
+    auto starts_it = starts.begin();
+    auto ends_it   = ends.begin();
+    for (auto tag : tags) {
+      switch (tag) {
+      case detail::StackEntryTag::START_MARKER:
+        std::memcpy(it++, &*starts_it++, sizeof(CSTMarker));
+        break;
+      case detail::StackEntryTag::END_MARKER:
+        std::memcpy(it++, &*ends_it++, sizeof(CSTMarker));
+        break;
+      default:
+        *it++ = ((uint64_t)1 << 63) | static_cast<uint64_t>(tag);
+        break;
+      }
+    }
+    if (it < src + m_bank_size / 8) *it = 0;
+    delete ptr;
 #else
     *src = reinterpret_cast<uint64_t>(ptr);
 #endif
diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index 956fe0f..12db954 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -33,17 +33,12 @@ private:
 #if PYCENTAURUS
     auto bank_ptr = reinterpret_cast<uint64_t*>(acquire_bank());
     assert(bank_ptr != nullptr);
-    std::vector<CSTMarker> starts(*bank_ptr++, CSTMarker(0));
-    std::memcpy(starts.data(), bank_ptr, starts.size()*sizeof(CSTMarker));
-    bank_ptr += starts.size();
-    std::vector<CSTMarker> ends(*bank_ptr++, CSTMarker(0));
-    assert(ends.empty());
-    std::vector<semantic_value_type> values(*bank_ptr++);
-    std::memcpy(values.data(), bank_ptr, values.size()*sizeof(semantic_value_type));
-    assert(values[0] == 0 && values.size() == 1);
-    bank_ptr += values.size();
-    std::vector<detail::StackEntryTag> tags(*bank_ptr++);
-    std::memcpy(tags.data(), bank_ptr, tags.size()*sizeof(detail::StackEntryTag));
+    std::vector<CSTMarker> starts;
+    std::vector<semantic_value_type> values(1);
+    std::vector<detail::StackEntryTag> tags;
+    reduce_serialized_bank(bank_ptr, starts, values, tags);
+    // The values of the first bank are already on the listener's stack.
+    values.front() = 0;
 #else
     auto bank_base_ptr = reinterpret_cast<std::tuple<std::vector<CSTMarker>,
                                                      std::vector<CSTMarker>,
@@ -61,21 +56,13 @@ private:
     void *current_bank;
     while ((current_bank = acquire_bank()) != nullptr) {
 #if PYCENTAURUS
-      auto bank_ptr = reinterpret_cast<uint64_t*>(current_bank);
-      detail::ConstPtrRange<CSTMarker> starts_next(reinterpret_cast<CSTMarker*>(bank_ptr + 1), bank_ptr[0]);
-      bank_ptr += starts_next.size() + 1;
-      detail::ConstPtrRange<CSTMarker> ends_next(reinterpret_cast<CSTMarker*>(bank_ptr + 1), bank_ptr[0]);
-      bank_ptr += ends_next.size() + 1;
-      detail::ConstPtrRange<semantic_value_type> values_next(bank_ptr + 1, bank_ptr[0]);
-      bank_ptr += values_next.size() + 1;
-      detail::ConstPtrRange<detail::StackEntryTag> tags_next(reinterpret_cast<detail::StackEntryTag*>(bank_ptr + 1), bank_ptr[0]);
+      reduce_serialized_bank(reinterpret_cast<uint64_t*>(current_bank), starts, values, tags);
 #else
       auto& stack_tuple = **reinterpret_cast<std::decay<decltype(stack_tuple_base)>::type**>(current_bank);
       auto& starts_next = std::get<0>(stack_tuple);
       auto& ends_next   = std::get<1>(stack_tuple);
       auto& values_next = std::get<2>(stack_tuple);
       auto& tags_next   = std::get<3>(stack_tuple);
-#endif
       auto starts_next_it = starts_next.begin();
       auto ends_next_it   = ends_next.begin();
       auto values_next_it = values_next.begin();
@@ -96,16 +83,15 @@ private:
       }
       assert(starts_next_it == starts_next.end());
       assert(ends_next_it == ends_next.end());
-#if !PYCENTAURUS
       assert(values_next_it == values_next.end());
-#endif
-#if !PYCENTAURUS
       delete &stack_tuple;
 #endif
       release_bank();
     }
     assert(starts.empty());
+#if !PYCENTAURUS
     assert(ends.empty());
+#endif
     assert(values.size() <= 1);
     assert(tags.size() <= 1);
 
@@ -115,6 +101,25 @@ private:
 #endif
     return result;
   }
+#if PYCENTAURUS
+  // Applies what Stage2Runner::reduce_bank() left in a bank: start markers, end markers and,
+  // as semantic value markers, the numbers of values between them.
+  void reduce_serialized_bank(const uint64_t *bank_ptr, std::vector<CSTMarker>& starts, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
+  {
+    auto bank_end = bank_ptr + m_bank_size / 8;
+    for (; bank_ptr < bank_end && *bank_ptr != 0; bank_ptr++) {
+      CSTMarker marker(*bank_ptr);
+      if (marker.is_start_marker()) {
+        push_start_marker(marker, starts, tags);
+      } else if (marker.is_end_marker()) {
+        assert(!starts.empty());
+        reduce_by_end_marker(marker, starts, values, tags);
+      } else {
+        append_value(bank_ptr, static_cast<int>(marker.get_offset()), values, tags);
+      }
+    }
+  }
+#endif
   template <typename Iterator>
   static void append_value(Iterator& values_next_it, int n, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
-- 
2.43.0


From 4d72743f913060979184ae9c674bb6df37d7ace7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 10/45] fix: recursive Stage3Runner does not take the root's
 semantic value for a marker

---
 src/core/Stage3Runner.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Stage3Runner.hpp b/src/core/Stage3Runner.hpp
index 659accb..7452749 100644
--- a/src/core/Stage3Runner.hpp
+++ b/src/core/Stage3Runner.hpp
@@ -47,6 +47,10 @@ private:
       m_window_position = 0;
     }
     CSTMarker start_marker(m_current_window[m_window_position++]);
+    if (start_marker.is_sv_marker()) {
+      // Stage 2 has already reduced the root; what follows is its semantic value.
+      return SVCapsule(m_input_window, m_current_window[m_window_position - 1], m_current_window[m_window_position]);
+    }
     while (true) {
       for (; m_window_position < m_bank_size / 8; m_window_position++) {
         CSTMarker marker(m_current_window[m_window_position]);
-- 
2.43.0


From d8eff948761174384b6fc7eff8a4e45ee04bd023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 11/45] fix: recursive Stage2Runner survives a bank cut short
 by rejected input

---
 src/core/Stage2Runner.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Stage2Runner.hpp b/src/core/Stage2Runner.hpp
index b21129d..4fc29ca 100644
--- a/src/core/Stage2Runner.hpp
+++ b/src/core/Stage2Runner.hpp
@@ -48,7 +48,8 @@ private:
     j = position + 1;
     for (i = position + 1; i < m_bank_size / 8; i++) {
       if (ast[i] == 0) {
-        throw SimpleException("Null entry in CST window.");
+        // The parser gave up here: nothing more was written to this bank.
+        return m_bank_size / 8;
       }
       CSTMarker marker(ast[i]);
       if (marker.is_start_marker()) {
-- 
2.43.0


From c2eb81a22e91581056a5759cb78b4696d4622190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 12/45] fix: terminals without an explicit id get no id instead
 of an indeterminate one

---
 src/core/ATN.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index b614473..96ed98b 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -101,6 +101,7 @@ public:
     {
     }
     ATNNode(Stream& stream)
+        : m_localid(-1)
     {
         parse(stream);
     }
-- 
2.43.0


From ce830f5a0f8d69f32fd0c119c38459e5d40c5497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 13/45] fix: '.' does not match the terminating zero behind the
 input

---
 src/core/CharClass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index b7bccd8..09b6e65 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -156,7 +156,7 @@ public:
     }
     static CharClass<TCHAR> make_star()
     {
-        return CharClass<TCHAR>(0, std::numeric_limits<TCHAR>::max());
+        return CharClass<TCHAR>(1, std::numeric_limits<TCHAR>::max());
     }
     bool is_epsilon() const
     {
-- 
2.43.0


From bef6e55c060985062054dac33b2b23cb3885e005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 14/45] fix: long character classes of more than eight ranges
 lose none of them

---
 src/core/CodeGenEM64T.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index 677585d..774bc77 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -587,7 +587,8 @@ void DFARoutineEM64T<TCHAR>::emit_state(asmjit::X86Assembler& as, asmjit::Label&
 
     for (auto i = transitions.begin(); i != transitions.end();)
     {
-        if (i->dest() == index && state.is_long())
+        //The filter register holds 16 bytes, i.e. a limited number of ranges
+        if (i->dest() == index && state.is_long() && i->label().size() <= (sizeof(TCHAR) == 1 ? 8 : 4))
         {
             pool.load_charclass_filter(PATTERN2_REG, i->label());
 
-- 
2.43.0


From 72515151dac603dbc119839e4e4acbc4a1ea4172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 15/45] fix: DFA minimisation does not merge accepting with
 rejecting states

---
 src/core/DFA.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/DFA.hpp b/src/core/DFA.hpp
index 1124e3b..976ff43 100644
--- a/src/core/DFA.hpp
+++ b/src/core/DFA.hpp
@@ -18,12 +18,15 @@ public:
 	using NFABaseState<TCHAR, IndexVector>::get_transitions;
 	using NFABaseState<TCHAR, IndexVector>::m_transitions;
     using NFABaseState<TCHAR, IndexVector>::hash;
-    using NFABaseState<TCHAR, IndexVector>::operator==;
     using NFABaseState<TCHAR, IndexVector>::sort;
 	DFAState(const IndexVector& label, bool long_flag = false)
 		: NFABaseState<TCHAR, IndexVector>(label), m_long(long_flag), m_accept(false) {}
     DFAState(const DFAState<TCHAR>& state, std::vector<DFATransition<TCHAR> >&& transitions)
         : NFABaseState<TCHAR, IndexVector>(state, std::move(transitions)), m_long(state.m_long), m_accept(state.m_accept) {}
+    bool operator==(const DFAState<TCHAR>& s) const
+    {
+        return m_accept == s.m_accept && NFABaseState<TCHAR, IndexVector>::operator==(s);
+    }
 	bool is_accept_state() const
 	{
 		return m_accept;
-- 
2.43.0


From 2961ec443d21c9dd32767d3cf035909e692acaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 16/45] fix: the generated parser zeroes the rest of the bank
 when it rejects the input

---
 src/core/CodeGenEM64T.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index 774bc77..6cc4dd4 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -118,6 +118,16 @@ void ParserEM64T<TCHAR>::init(const Grammar<TCHAR>& grammar, asmjit::Logger *log
     }
 
     asmjit::Label landfilllabel = as.newLabel();
+    asmjit::Label fillbanklabel = as.newLabel();
+    as.jmp(fillbanklabel);
+
+    //Rejected input: discard the calls in progress and return null.
+    //The rest of the bank is zeroed here as well, or it would keep markers of an earlier use.
+    as.bind(rejectlabel);
+    as.mov(INPUT_REG, 0);
+    as.mov(asmjit::x86::rsp, STACK_BACKUP_REG);
+
+    as.bind(fillbanklabel);
     as.xor_(MARKER_REG, MARKER_REG);
     as.bind(landfilllabel);
     as.movnti(asmjit::X86Mem(OUTPUT_REG, 0), MARKER_REG);
@@ -140,7 +150,9 @@ void ParserEM64T<TCHAR>::init(const Grammar<TCHAR>& grammar, asmjit::Logger *log
 
     as.bind(finishlabel);
 
-    emit_parser_epilog(as, rejectlabel);
+    asmjit::Label unusedlabel = as.newLabel();
+
+    emit_parser_epilog(as, unusedlabel);
 
     pool.embed();
 
-- 
2.43.0


From 75189dda86ef49075c32b4e6ce863c633f555df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 17/45] fix: the generated parser calls request_page with an
 aligned stack

---
 src/core/CodeGenEM64T.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index 6cc4dd4..78f164e 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -426,14 +426,15 @@ void ParserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const ATNMachine
         as.push(STACK_BACKUP_REG);
         as.movdqa(asmjit::x86::xmm15, PATTERN_REG);
         as.mov(ARG1_REG, asmjit::X86Mem(asmjit::x86::rsp, 8));
+        //The stack is 16-byte aligned at a call; what is on it here depends on the nesting depth
+        as.mov(asmjit::x86::rbx, asmjit::x86::rsp);
+        as.and_(asmjit::x86::rsp, -16);
 #if defined(CENTAURUS_BUILD_WINDOWS)
         as.sub(asmjit::x86::rsp, 32);
 #endif
         as.sfence();
         as.call((uint64_t)request_page);
-#if defined(CENTAURUS_BUILD_WINDOWS)
-        as.add(asmjit::x86::rsp, 32);
-#endif
+        as.mov(asmjit::x86::rsp, asmjit::x86::rbx);
         as.mov(OUTPUT_REG, asmjit::x86::rax);
         as.mov(OUTPUT_BOUND_REG, OUTPUT_REG);
         as.add(OUTPUT_BOUND_REG, AST_BUF_SIZE);
@@ -453,14 +454,15 @@ void ParserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const ATNMachine
         as.push(STACK_BACKUP_REG);
         as.movdqa(asmjit::x86::xmm15, PATTERN_REG);
         as.mov(ARG1_REG, asmjit::X86Mem(asmjit::x86::rsp, 8));
+        //The stack is 16-byte aligned at a call; what is on it here depends on the nesting depth
+        as.mov(asmjit::x86::rbx, asmjit::x86::rsp);
+        as.and_(asmjit::x86::rsp, -16);
 #if defined(CENTAURUS_BUILD_WINDOWS)
         as.sub(asmjit::x86::rsp, 32);
 #endif
         as.sfence();
         as.call((uint64_t)request_page);
-#if defined(CENTAURUS_BUILD_WINDOWS)
-        as.add(asmjit::x86::rsp, 32);
-#endif
+        as.mov(asmjit::x86::rsp, asmjit::x86::rbx);
         as.mov(OUTPUT_REG, asmjit::x86::rax);
         as.mov(OUTPUT_BOUND_REG, OUTPUT_REG);
         as.add(OUTPUT_BOUND_REG, AST_BUF_SIZE);
-- 
2.43.0


From 87ff2e00a527cec2fa0cf503c9697ea3396ab5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:02 +0000
Subject: [PATCH 18/45] hook: bank size of the generated parser and of Context
 configurable for simulation (CENTAURUS_SIM_BANK_SIZE)

---
 src/core/CodeGenEM64T.hpp |  5 +++++
 src/core/Context.hpp      | 12 +++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/core/CodeGenEM64T.hpp b/src/core/CodeGenEM64T.hpp
index 45101e9..e6ada70 100644
--- a/src/core/CodeGenEM64T.hpp
+++ b/src/core/CodeGenEM64T.hpp
@@ -72,7 +72,12 @@ public:
 template<typename TCHAR>
 class ParserEM64T : public IParser
 {
+#if defined(CENTAURUS_SIM_BANK_SIZE)
+    //Simulation hook: banks small enough for a simulated run to fill many of them
+    const int64_t AST_BUF_SIZE = CENTAURUS_SIM_BANK_SIZE;
+#else
     static constexpr int64_t AST_BUF_SIZE = 8 * 1024 * 1024;
+#endif
     asmjit::JitRuntime m_runtime;
     asmjit::CodeHolder m_code;
     static CharClass<TCHAR> m_skipfilter;
diff --git a/src/core/Context.hpp b/src/core/Context.hpp
index 5f9a62a..0e6a5cb 100644
--- a/src/core/Context.hpp
+++ b/src/core/Context.hpp
@@ -90,22 +90,28 @@ public:
     void parse(const char *input_path, int worker_num)
     {
         int pid = get_current_pid();
+#if defined(CENTAURUS_SIM_BANK_SIZE)
+        //Simulation hook: see ParserEM64T
+        const size_t bank_size = CENTAURUS_SIM_BANK_SIZE;
+#else
+        const size_t bank_size = 8 * 1024 * 1024;
+#endif
 
         ParseContext<TCHAR> context{m_callbacks, nullptr};
 
         std::vector<BaseRunner *> runners;
         try
         {
-            runners.push_back(new Stage1Runner{ input_path, &m_parser, 8 * 1024 * 1024, worker_num * 2 });
+            runners.push_back(new Stage1Runner{ input_path, &m_parser, bank_size, worker_num * 2 });
             for (int i = 0; i < worker_num; i++)
             {
-                Stage2Runner *st2 = new Stage2Runner{input_path, 8 * 1024 * 1024, worker_num * 2, pid, static_cast<void *>(&context) };
+                Stage2Runner *st2 = new Stage2Runner{input_path, bank_size, worker_num * 2, pid, static_cast<void *>(&context) };
 
                 st2->register_listener(callback);
 
                 runners.push_back(st2);
             }
-            Stage3Runner *st3 = new Stage3Runner{ input_path, 8 * 1024 * 1024, worker_num * 2, pid, static_cast<void *>(&context) };
+            Stage3Runner *st3 = new Stage3Runner{ input_path, bank_size, worker_num * 2, pid, static_cast<void *>(&context) };
 
             st3->register_listener(callback);
 
-- 
2.43.0


From 3997a0c0d03a37485f3c010c98405aa850a0242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 19/45] fix: a choice right after a pattern ending in a
 repetition picks the right way out

---
 src/core/CompositeATN.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index dbf6194..e8fd21d 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -129,7 +129,9 @@ private:
             m_nodes.emplace_back();
             m_nodes.back().import_transitions(nfa.get_state(i), offset);
         }
-        return m_nodes.size() - 1;
+        //The final state may have transitions of its own (a repetition at the end of the pattern).
+        //They must not be mistaken for the ways out of the terminal.
+        return add_node(CharClass<TCHAR>(), m_nodes.size() - 1, 0);
     }
     int import_nonterminal(const Identifier& id, int origin, int tag)
     {
-- 
2.43.0


From 1f7098f455a8c295e03a53a1fb8151ca721d4ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:52 +0000
Subject: [PATCH 20/45] fix: a repetition with several transitions to itself is
 matched as one loop

---
 src/core/CodeGenEM64T.cpp | 44 +++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index 78f164e..edb9464 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -599,29 +599,37 @@ void DFARoutineEM64T<TCHAR>::emit_state(asmjit::X86Assembler& as, asmjit::Label&
 {
     std::vector<NFATransition<TCHAR> > transitions(state.get_transitions());
 
-    for (auto i = transitions.begin(); i != transitions.end();)
+    //The state may loop to itself by several transitions; all of them make up the loop
+    CharClass<TCHAR> loopclass;
+    for (const auto& tr : transitions)
     {
-        //The filter register holds 16 bytes, i.e. a limited number of ranges
-        if (i->dest() == index && state.is_long() && i->label().size() <= (sizeof(TCHAR) == 1 ? 8 : 4))
-        {
-            pool.load_charclass_filter(PATTERN2_REG, i->label());
+        if (tr.dest() == index)
+            loopclass |= tr.label();
+    }
 
-            asmjit::Label looplabel = as.newLabel();
+    //The filter register holds 16 bytes, i.e. a limited number of ranges
+    if (state.is_long() && loopclass.size() > 0 && loopclass.size() <= (sizeof(TCHAR) == 1 ? 8 : 4))
+    {
+        pool.load_charclass_filter(PATTERN2_REG, loopclass);
 
-            as.bind(looplabel);
+        asmjit::Label looplabel = as.newLabel();
 
-            as.movdqu(LOAD_REG, asmjit::X86Mem(INPUT_REG, 0));
-            as.pcmpistri(PATTERN2_REG, LOAD_REG, asmjit::Imm(sizeof(TCHAR) == 1 ? 0x14 : 0x15));
-            if (sizeof(TCHAR) == 2)
-                as.sal(INDEX_REG, 1);
-            as.add(INPUT_REG, INDEX_REG);
-            as.cmp(INDEX_REG, 15);
-            as.jg(looplabel);
-            i = transitions.erase(i);
-        }
-        else
+        as.bind(looplabel);
+
+        as.movdqu(LOAD_REG, asmjit::X86Mem(INPUT_REG, 0));
+        as.pcmpistri(PATTERN2_REG, LOAD_REG, asmjit::Imm(sizeof(TCHAR) == 1 ? 0x14 : 0x15));
+        if (sizeof(TCHAR) == 2)
+            as.sal(INDEX_REG, 1);
+        as.add(INPUT_REG, INDEX_REG);
+        as.cmp(INDEX_REG, 15);
+        as.jg(looplabel);
+
+        for (auto i = transitions.begin(); i != transitions.end();)
         {
-            i++;
+            if (i->dest() == index)
+                i = transitions.erase(i);
+            else
+                i++;
         }
     }
 
-- 
2.43.0


From 1a091cf745ea7aef3525b42ee6145848875b0d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 21/45] fix: grammars with right recursion load, such as the
 calculator of the README

---
 src/core/CompositeATN.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/core/CompositeATN.cpp b/src/core/CompositeATN.cpp
index 0f0564a..0cc0a9a 100644
--- a/src/core/CompositeATN.cpp
+++ b/src/core/CompositeATN.cpp
@@ -16,12 +16,9 @@ void CompositeATN<TCHAR>::build_wildcard_closure(CATNClosure& closure, const Ide
 
             if (node.get_submachine() == id)
             {
-                if (stack.count(p.first, i) >= 2)
-                {
-                    //std::cout << "Upward sentinel reached." << std::endl;
-                    throw SimpleException("Upward sentinel reached.");
-                    //continue;
-                }
+                //Returning to the same invocation site again adds nothing new
+                if (stack.count(p.first, i) >= 1)
+                    continue;
                 stack.push(p.first, i);
                 build_closure_exclusive(closure, ATNPath(p.first, i), color, stack, priority);
                 stack.pop();
@@ -113,12 +110,9 @@ void CompositeATN<TCHAR>::build_wildcard_departure_set(CATNDepartureSetFactory<T
         {
             if (p.second[i].get_submachine() == id)
             {
-                if (stack.count(p.first, i) >= 2)
-                {
-                    //std::cout << "Upward sentinel reached." << std::endl;
-                    throw SimpleException("Upward sentinel reached.");
-                    //continue;
-                }
+                //Returning to the same invocation site again adds nothing new
+                if (stack.count(p.first, i) >= 1)
+                    continue;
                 stack.push(p.first, i);
                 build_departure_set_r(deptset_factory, ATNPath(p.first, i), color, priority, stack);
                 stack.pop();
-- 
2.43.0


From 5d2908726c52af56cefe2663250d7b7756aafd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 22/45] fix: failures inside the core library reach Python as
 exceptions instead of ending the process

---
 src/pydll/PyCentaurus.cpp       | 46 ++++++++++++++++++++++++++-------
 src/python/centaurus/corelib.py | 34 ++++++++++++++++++------
 2 files changed, 63 insertions(+), 17 deletions(-)

diff --git a/src/pydll/PyCentaurus.cpp b/src/pydll/PyCentaurus.cpp
index eab4765..89a1b80 100644
--- a/src/pydll/PyCentaurus.cpp
+++ b/src/pydll/PyCentaurus.cpp
@@ -21,9 +21,34 @@ namespace Centaurus
 namespace Centaurus __attribute__((visibility("default")))
 #endif
 {
+	// Exceptions must not cross the C interface: what failed is kept for LastError() instead.
+	static thread_local std::string last_error;
+
+	template <typename F> static auto create_or_null(F create) -> decltype(create())
+	{
+		try
+		{
+			return create();
+		}
+		catch (const std::exception& e)
+		{
+			last_error = e.what();
+		}
+		catch (...)
+		{
+			last_error = "unknown error";
+		}
+		return nullptr;
+	}
+
+	CENTAURUS_EXPORT(const char *) LastError()
+	{
+		return last_error.c_str();
+	}
+
 	CENTAURUS_EXPORT(IGrammar *) GrammarCreate(const char *filename)
 	{
-		return new Grammar<unsigned char>(filename);
+		return create_or_null([&]() { return static_cast<IGrammar *>(new Grammar<unsigned char>(filename)); });
 	}
 
 	CENTAURUS_EXPORT(void) GrammarDestroy(IGrammar *grammar)
@@ -54,10 +79,13 @@ namespace Centaurus __attribute__((visibility("default")))
 
 		if (g_c)
 		{
-			if (dry)
-				return new DryParserEM64T<unsigned char>(*g_c);
-			else
-				return new ParserEM64T<unsigned char>(*g_c);
+			return create_or_null([&]() -> IParser *
+			{
+				if (dry)
+					return new DryParserEM64T<unsigned char>(*g_c);
+				else
+					return new ParserEM64T<unsigned char>(*g_c);
+			});
 		}
 
 		return nullptr;
@@ -73,7 +101,7 @@ namespace Centaurus __attribute__((visibility("default")))
 		Grammar<unsigned char> *g_c = dynamic_cast<Grammar<unsigned char> *>(grammar);
 
 		if (g_c)
-			return new ChaserEM64T<unsigned char>(*g_c);
+			return create_or_null([&]() { return static_cast<IChaser *>(new ChaserEM64T<unsigned char>(*g_c)); });
 
 		return nullptr;
 	}
@@ -85,7 +113,7 @@ namespace Centaurus __attribute__((visibility("default")))
 
 	CENTAURUS_EXPORT(Stage1Runner *) Stage1RunnerCreate(const char *filename, IParser *parser, size_t bank_size, int bank_num)
 	{
-		return new Stage1Runner(filename, parser, bank_size, bank_num);
+		return create_or_null([&]() { return new Stage1Runner(filename, parser, bank_size, bank_num); });
 	}
 
 	CENTAURUS_EXPORT(void) RunnerStart(BaseRunner *runner)
@@ -115,11 +143,11 @@ namespace Centaurus __attribute__((visibility("default")))
 
 	CENTAURUS_EXPORT(Stage2Runner *) Stage2RunnerCreate(const char *filename, size_t bank_size, int bank_num, int master_pid)
 	{
-		return new Stage2Runner(filename, bank_size, bank_num, master_pid);
+		return create_or_null([&]() { return new Stage2Runner(filename, bank_size, bank_num, master_pid); });
 	}
 
 	CENTAURUS_EXPORT(Stage3Runner *) Stage3RunnerCreate(const char *filename, size_t bank_size, int bank_num, int master_pid)
 	{
-		return new Stage3Runner(filename, bank_size, bank_num, master_pid);
+		return create_or_null([&]() { return new Stage3Runner(filename, bank_size, bank_num, master_pid); });
 	}
 }
diff --git a/src/python/centaurus/corelib.py b/src/python/centaurus/corelib.py
index 19fcd01..55fdc1c 100644
--- a/src/python/centaurus/corelib.py
+++ b/src/python/centaurus/corelib.py
@@ -17,10 +17,21 @@ def load_dll():
 
 CoreLib = load_dll()
 
+CoreLib.LastError.restype = ctypes.c_char_p
+
+class CoreLibException(Exception):
+    """The core library could not create an object."""
+
+def check_handle(handle):
+    if not handle:
+        raise CoreLibException(CoreLib.LastError().decode('utf-8', 'replace'))
+    return handle
+
 EnumMachinesCallback = ctypes.CFUNCTYPE(None, ctypes.c_wchar_p, ctypes.c_int)
 
 class Grammar(object):
     """EBNF grammar definition."""
+    handle = None
     CoreLib.GrammarCreate.restype = ctypes.c_void_p
     CoreLib.GrammarCreate.argtypes = [ctypes.c_char_p]
     CoreLib.GrammarDestroy.argtypes = [ctypes.c_void_p]
@@ -30,7 +41,7 @@ class Grammar(object):
     CoreLib.GrammarOptimize.argtypes = [ctypes.c_void_p]
 
     def __init__(self, filename):
-        self.handle = CoreLib.GrammarCreate(filename.encode('utf-8'))
+        self.handle = check_handle(CoreLib.GrammarCreate(filename.encode('utf-8')))
         self.actions = []
         self.ids = {}
         CoreLib.GrammarEnumMachines(self.handle, EnumMachinesCallback(self.enum_machines_callback))
@@ -40,7 +51,8 @@ class Grammar(object):
     def enum_machines_callback(self, name, id):
         self.ids[name] = id
     def __del__(self):
-        CoreLib.GrammarDestroy(self.handle)
+        if self.handle:
+            CoreLib.GrammarDestroy(self.handle)
     def print(self, filename):
         CoreLib.GrammarPrint(self.handle, filename.encode('utf-8'), 4)
     def optimize(self):
@@ -53,26 +65,30 @@ class Grammar(object):
         return len(self.ids)
 
 class Parser(object):
+    handle = None
     CoreLib.ParserCreate.restype = ctypes.c_void_p
     CoreLib.ParserCreate.argtypes = [ctypes.c_void_p, ctypes.c_bool]
     CoreLib.ParserDestroy.argtypes = [ctypes.c_void_p]
 
     def __init__(self, grammar, dry = False):
-        self.handle = CoreLib.ParserCreate(grammar.handle, dry)
+        self.handle = check_handle(CoreLib.ParserCreate(grammar.handle, dry))
 
     def __del__(self):
-        CoreLib.ParserDestroy(self.handle)
+        if self.handle:
+            CoreLib.ParserDestroy(self.handle)
 
 class Chaser(object):
+    handle = None
     CoreLib.ChaserCreate.restype = ctypes.c_void_p
     CoreLib.ChaserCreate.argtypes = [ctypes.c_void_p]
     CoreLib.ChaserDestroy.argtypes = [ctypes.c_void_p]
 
     def __init__(self, grammar):
-        self.handle = CoreLib.ChaserCreate(grammar.handle)
+        self.handle = check_handle(CoreLib.ChaserCreate(grammar.handle))
 
     def __del__(self):
-        CoreLib.ChaserDestroy(self.handle)
+        if self.handle:
+            CoreLib.ChaserDestroy(self.handle)
 
 class SymbolEntry(ctypes.Structure):
     _fields_ = [('id', ctypes.c_int),
@@ -83,6 +99,7 @@ ReductionListener = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.POINTER(SymbolEntry),
 TransferListener = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_int)
 
 class BaseRunner(object):
+    handle = None
     CoreLib.RunnerDestroy.argtypes = [ctypes.c_void_p]
     CoreLib.RunnerStart.argtypes = [ctypes.c_void_p]
     CoreLib.RunnerWait.argtypes = [ctypes.c_void_p]
@@ -91,10 +108,11 @@ class BaseRunner(object):
     CoreLib.RunnerGetWindow.argtypes = [ctypes.c_void_p]
 
     def __init__(self, handle):
-        self.handle = handle
+        self.handle = check_handle(handle)
 
     def __del__(self):
-        CoreLib.RunnerDestroy(self.handle)
+        if self.handle:
+            CoreLib.RunnerDestroy(self.handle)
 
     def start(self):
         CoreLib.RunnerStart(self.handle)
-- 
2.43.0


From 7312faf11156e26f885a141a1d4b51bb181d3aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 23/45] fix: a Python parse ends only when all workers are done
 with it

---
 src/python/centaurus/context.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index f4b1d04..cb1028a 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -17,13 +17,14 @@ class Stage1Worker(object):
     def parse(self, path):
         self.runner = Stage1Runner(path, self.parser, self.context.bank_size, self.context.bank_num)
         self.runner.start()
+    def wait(self):
+        self.runner.wait()
+        self.runner = None
     def start(self):
         if sys.platform.startswith('linux') and self.core_affinity >= 0:
             os.system("taskset -p -c %d %d" % (self.core_affinity, os.getpid()))
     def stop(self):
-        if self.runner:
-            self.runner.wait()
-            self.runner = None
+        pass
     def attach(self, listener):
         pass
     def set_core_affinity(self, core_affinity):
@@ -36,6 +37,7 @@ class SubprocessWorker:
         self.master_pid = os.getpid()
         self.proc = mp.Process(target=self.workloop)
         self.cmd_queue = mp.Queue()
+        self.ack_queue = mp.Queue()
         self.listener = None
         self.core_affinity = core_affinity
     def start(self):
@@ -45,6 +47,8 @@ class SubprocessWorker:
         self.proc.join()
     def parse(self, path):
         self.cmd_queue.put(('parse', path))
+    def wait(self):
+        self.ack_queue.get()
     def attach(self, listener):
         self.listener = listener
     def set_core_affinity(self, core_affinity):
@@ -62,6 +66,8 @@ class SubprocessWorker:
                 break
             elif cmd == 'parse':
                 self.parse_impl(arg)
+                # The runner is gone: the master may remove what it shares with it.
+                self.ack_queue.put(None)
 
 class Stage2Worker(SubprocessWorker):
     def parse_impl(self, path):
@@ -97,7 +103,12 @@ class Context(object):
     def parse(self, path):
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.parse(path)
-        return self.drain.get()
+        result = self.drain.get()
+        # The master's runner owns the memory and the semaphore all workers use:
+        # it has to outlive their runners.
+        for w in itertools.chain(self.parallel_workers, reversed(self.serial_workers)):
+            w.wait()
+        return result
     def stop(self):
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.stop()
-- 
2.43.0


From a5ecf3b7404abb4528a64b2afdeba94a9cd167f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 24/45] fix: a rejected input is reported by Context.parse()
 instead of killing the merging worker

---
 src/pydll/PyCentaurus.cpp        |  5 +++++
 src/python/centaurus/__init__.py |  2 +-
 src/python/centaurus/context.py  | 11 +++++++++--
 src/python/centaurus/corelib.py  |  5 +++++
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/pydll/PyCentaurus.cpp b/src/pydll/PyCentaurus.cpp
index 89a1b80..414e4e6 100644
--- a/src/pydll/PyCentaurus.cpp
+++ b/src/pydll/PyCentaurus.cpp
@@ -116,6 +116,11 @@ namespace Centaurus __attribute__((visibility("default")))
 		return create_or_null([&]() { return new Stage1Runner(filename, parser, bank_size, bank_num); });
 	}
 
+	CENTAURUS_EXPORT(bool) Stage1RunnerIsAccepted(Stage1Runner *runner)
+	{
+		return runner->get_result() != nullptr;
+	}
+
 	CENTAURUS_EXPORT(void) RunnerStart(BaseRunner *runner)
 	{
 		runner->start();
diff --git a/src/python/centaurus/__init__.py b/src/python/centaurus/__init__.py
index 0cebf2b..afe9396 100644
--- a/src/python/centaurus/__init__.py
+++ b/src/python/centaurus/__init__.py
@@ -1 +1 @@
-from .context import Context
+from .context import Context, ParseException
diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index cb1028a..443d640 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -19,7 +19,9 @@ class Stage1Worker(object):
         self.runner.start()
     def wait(self):
         self.runner.wait()
+        is_accepted = self.runner.is_accepted()
         self.runner = None
+        return is_accepted
     def start(self):
         if sys.platform.startswith('linux') and self.core_affinity >= 0:
             os.system("taskset -p -c %d %d" % (self.core_affinity, os.getpid()))
@@ -84,9 +86,12 @@ class Stage3Worker(SubprocessWorker):
         runner.attach(adapter.reduction_callback, adapter.transfer_callback)
         runner.start()
         runner.wait()
-        assert len(adapter.values) <= 1
+        # The master knows whether the input was rejected: only then can there be more values.
         self.context.drain.put(adapter.values[0] if adapter.values else None)
 
+class ParseException(Exception):
+    pass
+
 class Context(object):
     bank_size = 8 * 1024 * 1024
     def __init__(self, grammar_path):
@@ -106,8 +111,10 @@ class Context(object):
         result = self.drain.get()
         # The master's runner owns the memory and the semaphore all workers use:
         # it has to outlive their runners.
-        for w in itertools.chain(self.parallel_workers, reversed(self.serial_workers)):
+        for w in itertools.chain(self.parallel_workers, self.serial_workers[1:]):
             w.wait()
+        if not self.serial_workers[0].wait():
+            raise ParseException('%s does not match the grammar.' % path)
         return result
     def stop(self):
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
diff --git a/src/python/centaurus/corelib.py b/src/python/centaurus/corelib.py
index 55fdc1c..cf0309b 100644
--- a/src/python/centaurus/corelib.py
+++ b/src/python/centaurus/corelib.py
@@ -131,10 +131,15 @@ class BaseRunner(object):
 class Stage1Runner(BaseRunner):
     CoreLib.Stage1RunnerCreate.restype = ctypes.c_void_p
     CoreLib.Stage1RunnerCreate.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
+    CoreLib.Stage1RunnerIsAccepted.restype = ctypes.c_bool
+    CoreLib.Stage1RunnerIsAccepted.argtypes = [ctypes.c_void_p]
 
     def __init__(self, filename, parser, bank_size, bank_num):
         super(Stage1Runner, self).__init__(CoreLib.Stage1RunnerCreate(filename.encode('utf-8'), parser.handle, bank_size, bank_num))
 
+    def is_accepted(self):
+        return CoreLib.Stage1RunnerIsAccepted(self.handle)
+
 class Stage2Runner(BaseRunner):
     CoreLib.Stage2RunnerCreate.restype = ctypes.c_void_p
     CoreLib.Stage2RunnerCreate.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int]
-- 
2.43.0


From 3ccdc655772f3cbae8e92e46767715f13d03dec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:47 +0000
Subject: [PATCH 25/45] fix: a Python context can be started again after it was
 stopped

---
 src/python/centaurus/context.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index 443d640..e7c89d8 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -97,10 +97,12 @@ class Context(object):
     def __init__(self, grammar_path):
         self.grammar = Grammar(grammar_path)
         self.drain = mp.Queue()
-        self.serial_workers = (Stage1Worker(self), Stage3Worker(self))
+        self.stage1_worker = Stage1Worker(self)
     def start(self, num_workers=1):
         self.bank_num = num_workers * 2
         self.channels = tuple(mp.Queue() for _ in range(self.bank_num))
+        # A process can be started only once.
+        self.serial_workers = (self.stage1_worker, Stage3Worker(self))
         self.parallel_workers = tuple(Stage2Worker(self) for _ in range(num_workers))
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.attach(self.listener)
@@ -113,12 +115,12 @@ class Context(object):
         # it has to outlive their runners.
         for w in itertools.chain(self.parallel_workers, self.serial_workers[1:]):
             w.wait()
-        if not self.serial_workers[0].wait():
+        if not self.stage1_worker.wait():
             raise ParseException('%s does not match the grammar.' % path)
         return result
     def stop(self):
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.stop()
-        del self.bank_num, self.channels, self.parallel_workers
+        del self.bank_num, self.channels, self.serial_workers, self.parallel_workers
     def attach(self, listener):
         self.listener = listener
-- 
2.43.0


From f05673e79d3cda7489640bdbb4fe323de6429edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 26/45] fix: a handler's exception reaches the caller of
 Context.parse() and does not shift the values of others

---
 src/python/centaurus/__init__.py |  2 +-
 src/python/centaurus/context.py  | 17 +++++++++----
 src/python/centaurus/listener.py | 43 ++++++++++++++++----------------
 3 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/src/python/centaurus/__init__.py b/src/python/centaurus/__init__.py
index afe9396..f2a225f 100644
--- a/src/python/centaurus/__init__.py
+++ b/src/python/centaurus/__init__.py
@@ -1 +1 @@
-from .context import Context, ParseException
+from .context import Context, ParseException, ListenerException
diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index e7c89d8..e459c9b 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -50,7 +50,7 @@ class SubprocessWorker:
     def parse(self, path):
         self.cmd_queue.put(('parse', path))
     def wait(self):
-        self.ack_queue.get()
+        return self.ack_queue.get()
     def attach(self, listener):
         self.listener = listener
     def set_core_affinity(self, core_affinity):
@@ -67,9 +67,9 @@ class SubprocessWorker:
             if cmd == 'stop':
                 break
             elif cmd == 'parse':
-                self.parse_impl(arg)
+                failure = self.parse_impl(arg)
                 # The runner is gone: the master may remove what it shares with it.
-                self.ack_queue.put(None)
+                self.ack_queue.put(failure)
 
 class Stage2Worker(SubprocessWorker):
     def parse_impl(self, path):
@@ -78,6 +78,7 @@ class Stage2Worker(SubprocessWorker):
         runner.attach(adapter.reduction_callback, adapter.transfer_callback)
         runner.start()
         runner.wait()
+        return adapter.failure
 
 class Stage3Worker(SubprocessWorker):
     def parse_impl(self, path):
@@ -88,10 +89,14 @@ class Stage3Worker(SubprocessWorker):
         runner.wait()
         # The master knows whether the input was rejected: only then can there be more values.
         self.context.drain.put(adapter.values[0] if adapter.values else None)
+        return adapter.failure
 
 class ParseException(Exception):
     pass
 
+class ListenerException(Exception):
+    pass
+
 class Context(object):
     bank_size = 8 * 1024 * 1024
     def __init__(self, grammar_path):
@@ -113,10 +118,12 @@ class Context(object):
         result = self.drain.get()
         # The master's runner owns the memory and the semaphore all workers use:
         # it has to outlive their runners.
-        for w in itertools.chain(self.parallel_workers, self.serial_workers[1:]):
-            w.wait()
+        failures = [w.wait() for w in itertools.chain(self.parallel_workers, self.serial_workers[1:])]
         if not self.stage1_worker.wait():
             raise ParseException('%s does not match the grammar.' % path)
+        for failure in failures:
+            if failure is not None:
+                raise ListenerException(failure)
         return result
     def stop(self):
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
diff --git a/src/python/centaurus/listener.py b/src/python/centaurus/listener.py
index ddece13..0bca729 100644
--- a/src/python/centaurus/listener.py
+++ b/src/python/centaurus/listener.py
@@ -19,6 +19,7 @@ class BaseListenerAdapter(object):
         self.grammar = grammar
         self.window = window
         self.channels = channels
+        self.failure = None
         self.handlers = [None] #NOTE: padding for 1-based symbol.id
         for index in range(1, grammar.get_machine_num() + 1):
             handler_name = 'parse' + grammar.get_machine_name(index)
@@ -32,7 +33,15 @@ class BaseListenerAdapter(object):
     def invoke_hander(self, symbol, argc):
         self.symbol = symbol
         self.argc = argc
-        lhs_value = self.handlers[symbol.id](self)
+        lhs_value = None
+        # The first failure of a handler makes the parse fail: the rest of it only keeps the workers in step.
+        if self.failure is None:
+            try:
+                lhs_value = self.handlers[symbol.id](self)
+            except:
+                self.failure = traceback.format_exc()
+                logger.debug('Exception in %s:' % (type(self).__name__,))
+                logger.debug(self.failure)
         del self.values[len(self.values) - argc:]
         if lhs_value is None:
             return 0
@@ -61,12 +70,7 @@ class Stage2ListenerAdapter(BaseListenerAdapter):
         self.run_time = 0.0
 
     def reduction_callback(self, symbol, values, num_values):
-        try:
-            return self.invoke_hander(symbol[0], num_values)
-        except:
-            logger.debug('Exception in Stage2Listener:')
-            logger.debug(traceback.format_exc())
-            sys.exit()
+        return self.invoke_hander(symbol[0], num_values)
 
     def transfer_callback(self, index, new_index):
         if self.values is not None:
@@ -89,21 +93,16 @@ class Stage3ListenerAdapter(BaseListenerAdapter):
         self.run_time = 0.0
 
     def reduction_callback(self, symbol, values, num_values):
-        try:
-            shift_count = values[0]
-            while shift_count > 0:
-                for v in self.valueiters[0]:
-                    self.values.append(v)
-                    shift_count -= 1
-                    if shift_count == 0:
-                        break
-                else:
-                    self.valueiters.popleft()
-            return self.invoke_hander(symbol[0], num_values)
-        except:
-            logger.debug('Exception in Stage3Listener:')
-            logger.debug(traceback.format_exc())
-            sys.exit()
+        shift_count = values[0]
+        while shift_count > 0:
+            for v in self.valueiters[0]:
+                self.values.append(v)
+                shift_count -= 1
+                if shift_count == 0:
+                    break
+            else:
+                self.valueiters.popleft()
+        return self.invoke_hander(symbol[0], num_values)
 
     def transfer_callback(self, index, new_index):
         values = self.channels[index].get()
-- 
2.43.0


From 0018e0692657397a7d95f1e5df5a19347fe972f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 27/45] fix: Context.attach() refuses a listener that lacks a
 handler

---
 src/python/centaurus/context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index e459c9b..2cb81d1 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -130,4 +130,6 @@ class Context(object):
             w.stop()
         del self.bank_num, self.channels, self.serial_workers, self.parallel_workers
     def attach(self, listener):
+        # Raises an exception here, not in the workers, if a handler is missing.
+        BaseListenerAdapter(self.grammar, listener, None, None)
         self.listener = listener
-- 
2.43.0


From 3e72212d5be38b559af525dd723f1f870672f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:30 +0000
Subject: [PATCH 28/45] fix: an optional group ending in a repetition cannot be
 skipped into the middle of it

---
 src/core/NFA.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 3f801bb..8d6f7d8 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -567,15 +567,21 @@ public:
             {
             case L'?':
                 stream.discard();
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
             case L'*':
                 stream.discard();
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
             default:
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
-- 
2.43.0


From f4872f6492902a013ff4c47498a4c5d47e4eb3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 29/45] fix: white space in front of prioritised alternatives
 does not decide between them

---
 src/core/CompositeATN.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index e8fd21d..d3aa89f 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -411,6 +411,8 @@ public:
 
         CATNDepartureSet<TCHAR> deptset;
 
+        const CharClass<TCHAR> whitespace({u' ', u'\t', u'\r', u'\n'});
+
         for (auto i = borders.cbegin(); i != borders.cend();)
         {
             TCHAR atomic_range_start = *i;
@@ -441,7 +443,11 @@ public:
                         std::wcerr << closure << std::endl;
                         std::wcerr << t.priority() << std::endl;
                     }*/
-                    closure_add(closure, t);
+                    //White space precedes every alternative and decides nothing
+                    if (whitespace.includes(atomic_range))
+                        closure.emplace(t.path(), t.color(), t.priority());
+                    else
+                        closure_add(closure, t);
                 }
             }
 
-- 
2.43.0


From e41b3e5089fa06f54da057f9adae7ce21cd3ba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 30/45] fix: optimize() keeps the priorities of alternatives

---
 src/core/ATN.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index 96ed98b..1264cb4 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -377,9 +377,24 @@ public:
                 {
                     assert(where >= 0);
                     ATNNode<TCHAR>& origin = m_nodes.at(where);
+
+                    int priority = 0;
+                    for (const auto& t : origin.get_transitions())
+                    {
+                        if (t.dest() == i) priority = t.tag();
+                    }
+                    bool is_prioritized = false;
+                    for (const auto& t : node.get_transitions())
+                    {
+                        if (t.tag() != 0) is_prioritized = true;
+                    }
+                    //Priorities within an alternative cannot be merged with those of the alternatives
+                    if (is_prioritized && origin.get_transitions().size() > 1)
+                        continue;
+
                     for (const auto& t : node.get_transitions())
                     {
-                        origin.add_transition(t);
+                        origin.add_transition(t.dest(), is_prioritized ? t.tag() : priority);
                     }
                     mask[i] = false;
                 }
-- 
2.43.0


From ece6dd79faa7f913e03f02914cda03a3239b8f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 31/45] fix: a character class may list its ranges in any order
 and overlapping

---
 src/core/CharClass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index 09b6e65..fd4abad 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -195,7 +195,7 @@ public:
 
         auto i = m_ranges.cbegin();
 
-        for (; i != m_ranges.cend() && !i->overlaps(r); i++)
+        for (; i != m_ranges.cend() && i->end() < r.start(); i++)
             ;
         
         cc.m_ranges.insert(cc.m_ranges.end(), m_ranges.cbegin(), i);
-- 
2.43.0


From edb7ac67ab8890d9a83e97a753e1c946de943ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:24 +0000
Subject: [PATCH 32/45] fix: the union of two character classes loses no part
 of merged ranges

---
 src/core/CharClass.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/CharClass.cpp b/src/core/CharClass.cpp
index d42fa14..9b077a0 100644
--- a/src/core/CharClass.cpp
+++ b/src/core/CharClass.cpp
@@ -164,8 +164,16 @@ CharClass<TCHAR> CharClass<TCHAR>::operator|(const CharClass<TCHAR>& cc) const
         }
     }
 
-    new_class.m_ranges.insert(new_class.m_ranges.end(), i, m_ranges.cend());
-    new_class.m_ranges.insert(new_class.m_ranges.end(), j, cc.m_ranges.cend());
+    if (i != m_ranges.cend())
+    {
+        new_class.m_ranges.push_back(ri);
+        new_class.m_ranges.insert(new_class.m_ranges.end(), ++i, m_ranges.cend());
+    }
+    if (j != cc.m_ranges.cend())
+    {
+        new_class.m_ranges.push_back(rj);
+        new_class.m_ranges.insert(new_class.m_ranges.end(), ++j, cc.m_ranges.cend());
+    }
 
     return new_class;
 }
-- 
2.43.0


From a690609198b5b1c5461b9a099141387d678151fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:26 +0000
Subject: [PATCH 33/45] fix: a grammar file that cannot be opened or decoded is
 refused instead of taken for an empty or shorter one

---
 src/core/Encoding.hpp | 8 +++++++-
 src/core/Grammar.cpp  | 9 +++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/core/Encoding.hpp b/src/core/Encoding.hpp
index bf02dc5..6bd01de 100644
--- a/src/core/Encoding.hpp
+++ b/src/core/Encoding.hpp
@@ -1,5 +1,10 @@
 #pragma once
 
+#include <locale>
+#include <string>
+
+#include "Exception.hpp"
+
 namespace Centaurus
 {
 /*class EncodingException : public std::exception
@@ -40,7 +45,8 @@ public:
         const char *from_next;
         wchar_t *to_next;
 
-        m_forward_cvt.in(mb, &external[0], &external[external.size()], from_next, &internal[0], &internal[internal.size()], to_next);
+        if (m_forward_cvt.in(mb, &external[0], &external[external.size()], from_next, &internal[0], &internal[internal.size()], to_next) != std::codecvt_base::ok)
+            throw SimpleException("Text cannot be decoded in the current locale");
 
         internal.resize(to_next - &internal[0]);
 
diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 844c782..395ade0 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -43,9 +43,14 @@ void Grammar<TCHAR>::print_ldfa(std::wostream& os, const ATNPath& path) const
 template<typename TCHAR>
 int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 {
-    std::wifstream grammar_file(filename, std::ios::in);
+    std::ifstream grammar_file(filename, std::ios::in | std::ios::binary);
 
-    std::wstring grammar_str(std::istreambuf_iterator<wchar_t>(grammar_file), {});
+    if (!grammar_file.is_open())
+        throw SimpleException(std::string("Cannot open grammar file ") + filename);
+
+    std::string grammar_bytes(std::istreambuf_iterator<char>(grammar_file), {});
+
+    std::wstring grammar_str = Encoder().mbstowcs(grammar_bytes);
 
     Stream stream(std::move(grammar_str));
 
-- 
2.43.0


From 00456d70947114be3bc9e6e819aa6239ce4e4b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:26 +0000
Subject: [PATCH 34/45] fix: a grammar that ends inside the path of an include
 is refused instead of read forever

---
 src/core/Grammar.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 395ade0..83507aa 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -102,6 +102,8 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 
             for (ch = stream.get(); ch != L'"'; ch = stream.get())
             {
+                if (ch == L'\0')
+                    throw stream.unexpected(EOF);
                 wide_path.push_back(ch);
             }
 
-- 
2.43.0


From 9cbaa6add1e7d1563ceb9b64164206931f89193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:39 +0000
Subject: [PATCH 35/45] fix: a grammar that includes itself is refused instead
 of overflowing the stack

---
 src/core/Grammar.cpp | 7 +++++--
 src/core/Grammar.hpp | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 83507aa..14c0da1 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -41,7 +41,7 @@ void Grammar<TCHAR>::print_ldfa(std::wostream& os, const ATNPath& path) const
     ldfa.print(os, path.leaf_id().str());
 }
 template<typename TCHAR>
-int Grammar<TCHAR>::parse(const char *filename, int machine_id)
+int Grammar<TCHAR>::parse(const char *filename, int machine_id, int include_depth)
 {
     std::ifstream grammar_file(filename, std::ios::in | std::ios::binary);
 
@@ -114,7 +114,10 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 
             Encoder enc{};
 
-            machine_id = parse(make_include_path(filename, enc.wcstombs(wide_path)), machine_id);
+            if (include_depth >= MAX_INCLUDE_DEPTH)
+                throw SimpleException(std::string("Includes are nested too deeply in ") + filename);
+
+            machine_id = parse(make_include_path(filename, enc.wcstombs(wide_path)).c_str(), machine_id, include_depth + 1);
         }
         else
         {
diff --git a/src/core/Grammar.hpp b/src/core/Grammar.hpp
index a339855..613ddaf 100644
--- a/src/core/Grammar.hpp
+++ b/src/core/Grammar.hpp
@@ -53,8 +53,10 @@ template<typename TCHAR> class Grammar : public IGrammar
     Identifier m_root_id;
 	Identifier m_grammar_name;
     GrammarOptions m_options;
+
+    static constexpr int MAX_INCLUDE_DEPTH = 64;
 public:
-    int parse(const char *filename, int machine_id = 1);
+    int parse(const char *filename, int machine_id = 1, int include_depth = 0);
     int parse(const std::string& filename, int machine_id = 1);
     const ATNNode<TCHAR>& resolve(const ATNPath& path) const
     {
-- 
2.43.0


From 5849e6d3605e1605b8f3d947fcb598fc01207d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:58 +0000
Subject: [PATCH 36/45] fix: a parser is not generated for a grammar without
 rules or with undefined ones

---
 src/core/CodeGenEM64T.cpp |  4 ++++
 src/core/Grammar.cpp      | 12 ++++++++++++
 src/core/Grammar.hpp      |  4 ++++
 3 files changed, 20 insertions(+)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index edb9464..0fec196 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -83,6 +83,8 @@ ParserEM64T<TCHAR>::ParserEM64T(const Grammar<TCHAR>& grammar, asmjit::Logger *l
 template<typename TCHAR>
 void ParserEM64T<TCHAR>::init(const Grammar<TCHAR>& grammar, asmjit::Logger *logger, asmjit::ErrorHandler *errhandler)
 {
+    grammar.check_references();
+
     m_code.init(m_runtime.getCodeInfo());
     if (logger != NULL)
         m_code.setLogger(logger);
@@ -164,6 +166,8 @@ void ParserEM64T<TCHAR>::init(const Grammar<TCHAR>& grammar, asmjit::Logger *log
 template<typename TCHAR>
 DryParserEM64T<TCHAR>::DryParserEM64T(const Grammar<TCHAR>& grammar, asmjit::Logger *logger)
 {
+    grammar.check_references();
+
     m_code.init(m_runtime.getCodeInfo());
     if (logger != NULL)
         m_code.setLogger(logger);
diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 14c0da1..5185a7a 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -141,6 +141,18 @@ int Grammar<TCHAR>::parse(const std::string& filename, int machine_id)
     return parse(filename.c_str(), machine_id);
 }
 template<typename TCHAR>
+void Grammar<TCHAR>::check_references() const
+{
+    if (m_networks.empty())
+        throw SimpleException("The grammar has no rules");
+
+    for (const auto& p : m_networks)
+    {
+        if (!p.second.verify_invocations(m_networks))
+            throw SimpleException("Rule " + Encoder().wcstombs(p.first.str()) + " uses a rule that is not defined");
+    }
+}
+template<typename TCHAR>
 bool Grammar<TCHAR>::verify() const
 {
     for (const auto& p : m_networks)
diff --git a/src/core/Grammar.hpp b/src/core/Grammar.hpp
index 613ddaf..4daa2f3 100644
--- a/src/core/Grammar.hpp
+++ b/src/core/Grammar.hpp
@@ -183,5 +183,9 @@ public:
         }
     }
 	virtual bool verify() const override;
+    /*!
+     * @brief Throws unless there is a root rule and every rule used is defined.
+     */
+    void check_references() const;
 };
 }
-- 
2.43.0


From 3551f0d47094ca75deb0d2fa52afcfb0cf40e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:28 +0000
Subject: [PATCH 37/45] fix: a grammar file with zero bytes in it is refused
 instead of cut short

---
 src/core/Grammar.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 5185a7a..d3369fe 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -50,6 +50,10 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id, int include_dept
 
     std::string grammar_bytes(std::istreambuf_iterator<char>(grammar_file), {});
 
+    //The stream below ends at a zero character
+    if (grammar_bytes.find('\0') != std::string::npos)
+        throw SimpleException(std::string("Zero bytes in grammar file ") + filename);
+
     std::wstring grammar_str = Encoder().mbstowcs(grammar_bytes);
 
     Stream stream(std::move(grammar_str));
-- 
2.43.0


From 48df9e1a6306ca713e627bcffca7bd2f01e809d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:04 +0000
Subject: [PATCH 38/45] fix: a rule defined twice no longer shifts the ids of
 the rules behind it

---
 src/core/Grammar.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index d3369fe..574767c 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -125,14 +125,18 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id, int include_dept
         }
         else
         {
-            ATNMachine<TCHAR> atn(machine_id++, stream);
+            ATNMachine<TCHAR> atn(machine_id, stream);
 
             if (m_root_id.str().empty())
                 m_root_id = id;
 
-            m_networks.insert(std::pair<Identifier, ATNMachine<TCHAR> >(id, std::move(atn)));
+            //The first definition of a rule stands; a further one (e.g. of a file included twice) takes no ID
+            if (m_networks.insert(std::pair<Identifier, ATNMachine<TCHAR> >(id, std::move(atn))).second)
+            {
+                m_identifiers.push_back(id);
 
-            m_identifiers.push_back(id);
+                machine_id++;
+            }
         }
 
         //m_networks.emplace(Identifier(stream), ATN<TCHAR>(stream));
-- 
2.43.0


From 765bc5f14677582672117262a7e0322280846593 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:26:26 +0000
Subject: [PATCH 39/45] fix: a thread that cannot be started is reported
 instead of being joined

---
 src/core/BaseRunner.hpp               |  8 ++++++--
 src/core/Context.hpp                  | 27 ++++++++++++++++++++++++---
 src/core/Stage1Runner.hpp             |  6 ++++++
 src/core/Stage3RunnerNonRecursive.hpp |  4 ++--
 4 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index c90ebea..f770b44 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -213,15 +213,19 @@ public:
 
 #if defined(CENTAURUS_BUILD_WINDOWS)
         m_thread = CreateThread(NULL, STACK_SIZE, BaseRunner::thread_runner<RunnerImpl>, this, STACK_SIZE_PARAM_IS_A_RESERVATION, NULL);
+        if (m_thread == NULL) throw SimpleException("CreateThread failed");
 #elif defined(CENTAURUS_BUILD_LINUX)
-        pthread_t thread;
         pthread_attr_t attr;
 
         pthread_attr_init(&attr);
 
         pthread_attr_setstacksize(&attr, STACK_SIZE);
 
-        pthread_create(&m_thread, &attr, BaseRunner::thread_runner<RunnerImpl>, this);
+        int err = pthread_create(&m_thread, &attr, BaseRunner::thread_runner<RunnerImpl>, this);
+
+        pthread_attr_destroy(&attr);
+
+        if (err != 0) throw_system_error("pthread_create", err);
 #endif
 
         clock_t end_time = clock();
diff --git a/src/core/Context.hpp b/src/core/Context.hpp
index 0e6a5cb..75a9d04 100644
--- a/src/core/Context.hpp
+++ b/src/core/Context.hpp
@@ -99,10 +99,13 @@ public:
 
         ParseContext<TCHAR> context{m_callbacks, nullptr};
 
+        Stage1Runner *st1 = nullptr;
         std::vector<BaseRunner *> runners;
         try
         {
-            runners.push_back(new Stage1Runner{ input_path, &m_parser, bank_size, worker_num * 2 });
+            st1 = new Stage1Runner{ input_path, &m_parser, bank_size, worker_num * 2 };
+
+            runners.push_back(st1);
             for (int i = 0; i < worker_num; i++)
             {
                 Stage2Runner *st2 = new Stage2Runner{input_path, bank_size, worker_num * 2, pid, static_cast<void *>(&context) };
@@ -128,9 +131,27 @@ public:
             throw;
         }
 
-        for (auto p : runners)
+        //Stage 1 comes last: until it runs, the others can be called off
+        auto started = runners.end();
+        try
+        {
+            for (; started != runners.begin(); --started)
+            {
+                started[-1]->start();
+            }
+        }
+        catch (...)
         {
-            p->start();
+            st1->cancel();
+            for (; started != runners.end(); ++started)
+            {
+                (*started)->wait();
+            }
+            for (auto p : runners)
+            {
+                delete p;
+            }
+            throw;
         }
         for (auto p : runners)
         {
diff --git a/src/core/Stage1Runner.hpp b/src/core/Stage1Runner.hpp
index 91224d7..2e8a04f 100644
--- a/src/core/Stage1Runner.hpp
+++ b/src/core/Stage1Runner.hpp
@@ -110,6 +110,12 @@ public:
   {
     _start<Stage1Runner>();
   }
+  // In place of start(): the other stages finish without a parse.
+  void cancel()
+  {
+    reset_banks();
+    signal_exit();
+  }
   virtual void *feed_callback() override
   {
     release_bank();
diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index 12db954..976b559 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -32,7 +32,7 @@ private:
   {
 #if PYCENTAURUS
     auto bank_ptr = reinterpret_cast<uint64_t*>(acquire_bank());
-    assert(bank_ptr != nullptr);
+    if (bank_ptr == nullptr) return 0;
     std::vector<CSTMarker> starts;
     std::vector<semantic_value_type> values(1);
     std::vector<detail::StackEntryTag> tags;
@@ -44,7 +44,7 @@ private:
                                                      std::vector<CSTMarker>,
                                                      std::vector<semantic_value_type>,
                                                      std::vector<detail::StackEntryTag>>**>(acquire_bank());
-    assert(bank_base_ptr != nullptr);
+    if (bank_base_ptr == nullptr) return 0;
     auto& stack_tuple_base = **bank_base_ptr;
     auto& starts = std::get<0>(stack_tuple_base);
     auto& ends   = std::get<1>(stack_tuple_base);
-- 
2.43.0


From 0e1a4a3fd56b5df35e73029bf74942859f6451d4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:26:26 +0000
Subject: [PATCH 40/45] fix: no stage is leaked when memory runs out while a
 parse is set up

---
 src/core/Context.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Context.hpp b/src/core/Context.hpp
index 75a9d04..8a1e4f3 100644
--- a/src/core/Context.hpp
+++ b/src/core/Context.hpp
@@ -103,6 +103,8 @@ public:
         std::vector<BaseRunner *> runners;
         try
         {
+            //A stage must not be lost between its creation and its entry here
+            runners.reserve(worker_num + 2);
             st1 = new Stage1Runner{ input_path, &m_parser, bank_size, worker_num * 2 };
 
             runners.push_back(st1);
-- 
2.43.0


From f6878cdafbdaff7103355fd535854f2f0499dc50 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:32:34 +0000
Subject: [PATCH 41/45] fix: a Python parse whose thread cannot be started
 raises

---
 src/pydll/PyCentaurus.cpp       |  4 ++--
 src/python/centaurus/context.py |  5 +++--
 src/python/centaurus/corelib.py | 14 ++++++++++++--
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/pydll/PyCentaurus.cpp b/src/pydll/PyCentaurus.cpp
index 414e4e6..8b1ba71 100644
--- a/src/pydll/PyCentaurus.cpp
+++ b/src/pydll/PyCentaurus.cpp
@@ -121,9 +121,9 @@ namespace Centaurus __attribute__((visibility("default")))
 		return runner->get_result() != nullptr;
 	}
 
-	CENTAURUS_EXPORT(void) RunnerStart(BaseRunner *runner)
+	CENTAURUS_EXPORT(BaseRunner *) RunnerStart(BaseRunner *runner)
 	{
-		runner->start();
+		return create_or_null([&]() { runner->start(); return runner; });
 	}
 
 	CENTAURUS_EXPORT(void) RunnerWait(BaseRunner *runner)
diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index 2cb81d1..761c6fe 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -15,8 +15,9 @@ class Stage1Worker(object):
         self.runner = None
         self.core_affinity=core_affinity
     def parse(self, path):
-        self.runner = Stage1Runner(path, self.parser, self.context.bank_size, self.context.bank_num)
-        self.runner.start()
+        runner = Stage1Runner(path, self.parser, self.context.bank_size, self.context.bank_num)
+        runner.start()
+        self.runner = runner
     def wait(self):
         self.runner.wait()
         is_accepted = self.runner.is_accepted()
diff --git a/src/python/centaurus/corelib.py b/src/python/centaurus/corelib.py
index cf0309b..c656e4b 100644
--- a/src/python/centaurus/corelib.py
+++ b/src/python/centaurus/corelib.py
@@ -20,7 +20,7 @@ CoreLib = load_dll()
 CoreLib.LastError.restype = ctypes.c_char_p
 
 class CoreLibException(Exception):
-    """The core library could not create an object."""
+    """The core library could not create an object or start a thread."""
 
 def check_handle(handle):
     if not handle:
@@ -101,6 +101,7 @@ TransferListener = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_int)
 class BaseRunner(object):
     handle = None
     CoreLib.RunnerDestroy.argtypes = [ctypes.c_void_p]
+    CoreLib.RunnerStart.restype = ctypes.c_void_p
     CoreLib.RunnerStart.argtypes = [ctypes.c_void_p]
     CoreLib.RunnerWait.argtypes = [ctypes.c_void_p]
     CoreLib.RunnerRegisterListener.argtypes = [ctypes.c_void_p, ReductionListener, TransferListener]
@@ -111,11 +112,20 @@ class BaseRunner(object):
         self.handle = check_handle(handle)
 
     def __del__(self):
+        self.close()
+
+    def close(self):
         if self.handle:
             CoreLib.RunnerDestroy(self.handle)
+            self.handle = None
 
     def start(self):
-        CoreLib.RunnerStart(self.handle)
+        try:
+            check_handle(CoreLib.RunnerStart(self.handle))
+        except CoreLibException:
+            # The traceback may keep this object: its name is needed for the next one.
+            self.close()
+            raise
 
     def wait(self):
         CoreLib.RunnerWait(self.handle)
-- 
2.43.0


From 575c3ef1e41f4a67d45a68ce1155602e4338f10d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:32:34 +0000
Subject: [PATCH 42/45] fix: an index outside a construct's values no longer
 gives values of its neighbours

---
 src/python/centaurus/listener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/centaurus/listener.py b/src/python/centaurus/listener.py
index 0bca729..e5bb808 100644
--- a/src/python/centaurus/listener.py
+++ b/src/python/centaurus/listener.py
@@ -58,7 +58,7 @@ class BaseListenerAdapter(object):
     def __len__(self):
         return self.argc
     def __getitem__(self, index):
-        return self.values[len(self.values) - self.argc + index]
+        return self.values[len(self.values) - self.argc + range(self.argc)[index]]
     def __iter__(self):
         return (self.values[i] for i in range(len(self.values) - self.argc, len(self.values)))
 
-- 
2.43.0


From 12439ac07741f7b8a8e1f4769cf1facf672550d4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:34:05 +0000
Subject: [PATCH 43/45] fix: a grammar with more rules than a marker can tell
 apart is refused

---
 src/core/Grammar.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 574767c..e21524c 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -65,8 +65,9 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id, int include_dept
         if (ch == L'\0')
             break;
 
-        if (machine_id >= 65536)
-            throw stream.toomany(65535);
+        //The markers of the parser have 15 bits for the number of a rule
+        if (machine_id >= 32768)
+            throw stream.toomany(32767);
 
         Identifier id(stream);
 
-- 
2.43.0


From 43d92cecac31814130e605a2ce6f98287ef185b4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:57:36 +0000
Subject: [PATCH 44/45] fix: a repetition of something that may be empty does
 not overflow the stack

---
 src/core/CompositeATN.cpp | 11 ++++++++---
 src/core/CompositeATN.hpp | 37 +++++++++++++++++++++++++++++++------
 src/core/NFA.hpp          |  5 +++--
 3 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/core/CompositeATN.cpp b/src/core/CompositeATN.cpp
index 0cc0a9a..c512954 100644
--- a/src/core/CompositeATN.cpp
+++ b/src/core/CompositeATN.cpp
@@ -4,7 +4,7 @@
 namespace Centaurus
 {
 template<typename TCHAR>
-void CompositeATN<TCHAR>::build_wildcard_closure(CATNClosure& closure, const Identifier& id, int color, ATNStateStack& stack, const PriorityChain& priority) const
+void CompositeATN<TCHAR>::build_wildcard_closure(CATNClosure& closure, const Identifier& id, int color, CATNTrail& stack, const PriorityChain& priority) const
 {
     //std::wcout << L"Wildcard " << id << L":" << color << std::endl;
 
@@ -27,12 +27,15 @@ void CompositeATN<TCHAR>::build_wildcard_closure(CATNClosure& closure, const Ide
     }
 }
 template<typename TCHAR>
-void CompositeATN<TCHAR>::build_closure_exclusive(CATNClosure& closure, const ATNPath& path, int color, ATNStateStack& stack, const PriorityChain& priority) const
+void CompositeATN<TCHAR>::build_closure_exclusive(CATNClosure& closure, const ATNPath& path, int color, CATNTrail& stack, const PriorityChain& priority) const
 {
     const CATNNode<TCHAR>& node = get_node(path);
 
     //std::wcout << L"Exclusive " << path << L":" << color << std::endl;
 
+    if (!stack.enter(path))
+        return;
+
     if (node.is_stop_node())
     {
         //std::wcout << L"Stop node " << path << std::endl;
@@ -80,9 +83,11 @@ void CompositeATN<TCHAR>::build_closure_exclusive(CATNClosure& closure, const AT
             }
         }
     }
+
+    stack.leave();
 }
 template<typename TCHAR>
-void CompositeATN<TCHAR>::build_closure_inclusive(CATNClosure& closure, const ATNPath& path, int color, ATNStateStack& stack, const PriorityChain& priority) const
+void CompositeATN<TCHAR>::build_closure_inclusive(CATNClosure& closure, const ATNPath& path, int color, CATNTrail& stack, const PriorityChain& priority) const
 {
     const CATNNode<TCHAR>& node = get_node(path);
 
diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index d3aa89f..2176e46 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -461,6 +461,31 @@ public:
     }
 };
 
+/*!
+ * @brief Invocation sites returned to and paths being followed while a closure is built
+ */
+class CATNTrail : public ATNStateStack
+{
+    std::vector<std::pair<ATNPath, size_t> > m_active;
+public:
+    /*!
+     * @brief Start following a path. Fails if it is a repetition of nothing, i.e. the same path is being followed already.
+     */
+    bool enter(const ATNPath& path)
+    {
+        for (auto i = m_active.crbegin(); i != m_active.crend() && i->second == size(); i++)
+        {
+            if (i->first == path) return false;
+        }
+        m_active.emplace_back(path, size());
+        return true;
+    }
+    void leave()
+    {
+        m_active.pop_back();
+    }
+};
+
 template<typename TCHAR>
 class CompositeATN
 {
@@ -469,12 +494,12 @@ private:
     /*!
      * @brief Add all the CATN nodes reachable from all the invocation sites of a machine
      */
-    void build_wildcard_closure(CATNClosure& closure, const Identifier& id, int color, ATNStateStack& stack, const PriorityChain& priority) const;
+    void build_wildcard_closure(CATNClosure& closure, const Identifier& id, int color, CATNTrail& stack, const PriorityChain& priority) const;
     /*!
      * @brief Add all the CATN nodes reachable from a path
      */
-    void build_closure_exclusive(CATNClosure& closure, const ATNPath& path, int color, ATNStateStack& stack, const PriorityChain& priority) const;
-    void build_closure_inclusive(CATNClosure& closure, const ATNPath& path, int color, ATNStateStack& stack, const PriorityChain& priority) const;
+    void build_closure_exclusive(CATNClosure& closure, const ATNPath& path, int color, CATNTrail& stack, const PriorityChain& priority) const;
+    void build_closure_inclusive(CATNClosure& closure, const ATNPath& path, int color, CATNTrail& stack, const PriorityChain& priority) const;
     void build_wildcard_departure_set(CATNDepartureSetFactory<TCHAR>& deptset_factory, const Identifier& id, int color, const PriorityChain& priority, ATNStateStack& stack) const;
     void build_departure_set_r(CATNDepartureSetFactory<TCHAR>& deptset_factory, const ATNPath& path, int color, const PriorityChain& priority, ATNStateStack& stack) const;
 public:
@@ -519,7 +544,7 @@ public:
     {
         CATNClosure ret;
 
-        ATNStateStack stack;
+        CATNTrail stack;
 
         for (const auto& p : closure)
         {
@@ -532,7 +557,7 @@ public:
     {
         CATNClosure closure;
 
-        ATNStateStack stack;
+        CATNTrail stack;
 
         build_closure_inclusive(closure, path, color, stack, PriorityChain());
 
@@ -545,7 +570,7 @@ public:
     {
         CATNClosure closure;
 
-        ATNStateStack stack;
+        CATNTrail stack;
 
         const CATNNode<TCHAR>& root_node = get_node(path);
 
diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 8d6f7d8..fe9584d 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -634,8 +634,9 @@ public:
     }
     bool epsilon_closure_sub(std::set<int>& closure, int index) const
     {
-        //Always include myself
-        closure.insert(index);
+        //Always include myself; a state reached again adds nothing
+        if (!closure.insert(index).second)
+            return false;
 
         bool long_flag = false;
         IndexVector et = m_states[index].epsilon_transitions(long_flag);
-- 
2.43.0


From a6ad86e4660df661ab7f55fee04f8c843c95219a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 07:54:47 +0000
Subject: [PATCH 45/45] fix: each lookahead state is forked once, not again by
 every enclosing level

---
 src/core/LookaheadDFA.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/core/LookaheadDFA.hpp b/src/core/LookaheadDFA.hpp
index 787ea31..2bedc33 100644
--- a/src/core/LookaheadDFA.hpp
+++ b/src/core/LookaheadDFA.hpp
@@ -161,8 +161,6 @@ private:
 		//std::cout << deptset << std::endl;
 
 		//Add new states to the LDFA
-		int initial_index = m_states.size();
-
 		for (const auto& item : deptset)
 		{
 			int color = get_closure_color(item.second);
@@ -181,18 +179,17 @@ private:
 			}
 		}
 
-		//Recursively construct the closures for all the newly added DFA states
-		for (unsigned int i = initial_index; i < m_states.size(); i++)
-		{
-			fork_closures(catn, i);
-		}
 	}
 public:
 	LookaheadDFA(const CompositeATN<TCHAR>& catn, const ATNPath& origin, bool optimize_flag = true)
 	{
 		m_states.emplace_back(catn.build_root_closure(origin));
 
-		fork_closures(catn, 0);
+		//States added on the way are forked in their turn, each of them once
+		for (unsigned int i = 0; i < m_states.size(); i++)
+		{
+			fork_closures(catn, i);
+		}
 
         for (auto& state : m_states)
             state.sort();
-- 
2.43.0

