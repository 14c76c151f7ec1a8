From 4cfddbe73da018d0ca769f308f69505dba2407af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:06 +0000
Subject: [PATCH 01/84] fix: keep mirrored channel storage page-aligned for
 every element size

When sizeof(T) does not divide the page size, the rounded-down capacity left a
gap between the last element and the second mapping, so read_dbf()/write_dbf()
windows that crossed the end of the buffer addressed the wrong bytes.
---
 include/cler_spsc-queue.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cler_spsc-queue.hpp b/include/cler_spsc-queue.hpp
index d4604a1..72c28a8 100644
--- a/include/cler_spsc-queue.hpp
+++ b/include/cler_spsc-queue.hpp
@@ -17,6 +17,7 @@
 #include <atomic>      // for atomic, memory_order
 #include <cstddef>     // for size_t
 #include <limits>      // for numeric_limits
+#include <numeric>     // for std::gcd
 #include <new>         // for std::hardware_destructive_interference_size
 #include <memory>      // for std::allocator_traits
 #include <type_traits> // for std::is_default_constructible
@@ -96,8 +97,10 @@ public:
           if (cler::platform::supports_doubly_mapped_buffers() && 
               buffer_bytes >= DOUBLY_MAPPED_MIN_SIZE) {
             const std::size_t page_size = cler::platform::get_page_size();
-            const std::size_t aligned_bytes = ((buffer_bytes + page_size - 1) / page_size) * page_size;
-            return aligned_bytes / sizeof(T);  // Return page-aligned capacity
+            // The second mapping only continues the first one if the elements fill the pages
+            // exactly, so round up to whole pages that also hold a whole number of elements.
+            const std::size_t step = page_size / std::gcd(page_size, sizeof(T));
+            return ((requested_capacity + step - 1) / step) * step;  // Return page-aligned capacity
           }
           return requested_capacity;  // Return regular capacity
         }()),
-- 
2.43.0


From bf8b63d885385844178f1045602e845786317a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 02/84] fix: do not round mirrored buffers up to the huge page
 size

A buffer of 2 MB or more that is not a multiple of the huge page size got a
mapping larger than its capacity, so contiguous windows crossing the end of the
channel's storage did not continue at its beginning.
---
 include/virtual_memory/cler_vmem_posix.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/virtual_memory/cler_vmem_posix.hpp b/include/virtual_memory/cler_vmem_posix.hpp
index d344238..f3e514d 100644
--- a/include/virtual_memory/cler_vmem_posix.hpp
+++ b/include/virtual_memory/cler_vmem_posix.hpp
@@ -80,16 +80,16 @@ public:
         
         // Get page sizes
         const std::size_t page_size = cler::platform::get_page_size();
-        std::size_t aligned_size = ((size + page_size - 1) / page_size) * page_size;
+        const std::size_t aligned_size = ((size + page_size - 1) / page_size) * page_size;
         
         // Determine if we should try huge pages
         bool use_huge_pages = false;
         
         #ifdef MAP_HUGETLB
         const std::size_t huge_page_size = get_huge_page_size();
-        if (huge_page_size > 0 && aligned_size >= huge_page_size) {
-            // Align to huge page boundary
-            aligned_size = ((size + huge_page_size - 1) / huge_page_size) * huge_page_size;
+        // Only when the size is a whole number of huge pages: rounding it up would move the
+        // second mapping away from the end of the caller's data.
+        if (huge_page_size > 0 && aligned_size >= huge_page_size && aligned_size % huge_page_size == 0) {
             use_huge_pages = true;
         }
         #endif
-- 
2.43.0


From 4e70727bd08dbf0926582e60166be00d988f7e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 03/84] fix: make the mirrored-buffer capability probe safe for
 concurrent first use

A second thread asking while the first was still probing was told that mirrored
buffers are unsupported, so its channels silently fell back to plain storage.
---
 include/cler_platform.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cler_platform.hpp b/include/cler_platform.hpp
index 6ac191d..d819042 100644
--- a/include/cler_platform.hpp
+++ b/include/cler_platform.hpp
@@ -129,12 +129,10 @@ namespace cler {
             #if !defined(__linux__) && !defined(__APPLE__) && !defined(__FreeBSD__)
                 return false;
             #else
-                static bool tested = false;
-                static bool supported = false;
-                
-                if (tested) return supported;
-                tested = true;
-                
+                // Probed once; a function-local static makes concurrent first callers wait for the result
+                static const bool supported = [] {
+                bool ok = false;
+
                 #if CLER_HAS_MMAP_H
                     // Try to create a small test mapping
                     const size_t test_size = get_page_size();
@@ -197,7 +195,7 @@ namespace cler {
                                     if (m2 != MAP_FAILED) {
                                         // Test that both mappings see the same data (volatile to prevent optimization)
                                         *static_cast<volatile int*>(m1) = 0x12345678;
-                                        supported = (*static_cast<volatile int*>(m2) == 0x12345678);
+                                        ok = (*static_cast<volatile int*>(m2) == 0x12345678);
                                     }
                                 }
                                 munmap(addr, test_size * 2);
@@ -206,7 +204,9 @@ namespace cler {
                         close(fd);
                     }
                 #endif
-                
+                return ok;
+                }();
+
                 return supported;
             #endif
         }
-- 
2.43.0


From 5e3d8854cf433124f5816f7cd83a493334599eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:55 +0000
Subject: [PATCH 04/84] fix: never use more pool workers than the scheduler has
 queues

FixedThreadPool with num_workers above DEFAULT_MAX_WORKERS and more blocks than
workers indexed past the end of the worker queues.
---
 include/cler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 91f22ad..02fa640 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -587,6 +587,8 @@ namespace cler {
                 run_thread_per_block(config);
             } else {
                 // Fewer workers than blocks - use fixed thread pool scheduler
+                // The scheduler has a fixed number of worker queues, so never more workers than that
+                num_workers = std::min(num_workers, DEFAULT_MAX_WORKERS);
                 // Initialize with contiguous block grouping (keeps producer->consumer chains together)
                 fixed_thread_pool_scheduler.initialize(_N, num_workers);
                 
-- 
2.43.0


From 707ea9d4b41471b0b5a1d9de36c23c2a951259cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 05/84] fix: join the tasks of a self-terminated flowgraph
 before running it again

After a fatal result the flowgraph is stopped but its tasks are not joined;
run() then overwrote joinable task handles (std::terminate on desktop).
---
 include/cler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 02fa640..7bf0a4d 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -236,6 +236,8 @@ namespace cler {
         void* on_err_terminate_context() const { return _on_err_terminate_context; }
 
         void run(const FlowGraphConfig& config = FlowGraphConfig{}) {
+            // A flowgraph that terminated by itself still has its finished tasks to join
+            stop();
             _config = config;
             _stop_flag.store(false, std::memory_order_release);
             
-- 
2.43.0


From 0955893e5c8eb65b9386cbf76a70523f3a57ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:18 +0000
Subject: [PATCH 06/84] fix: statistics describe the current run and survive a
 fatal result

Pool counters accumulated over runs, stale values of earlier runs stayed visible,
and a thread-per-block task that ended with a fatal result never wrote its own.
---
 include/cler.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 7bf0a4d..02271c3 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -395,7 +395,7 @@ namespace cler {
                             if (_on_err_terminate_cb) {
                                 _on_err_terminate_cb(_on_err_terminate_context);
                             }
-                            return;
+                            break;  // _stop_flag is set: leaves both loops, statistics are still finalized
                         }
 
                         if (err == Error::NotEnoughSpaceOrSamples || err == Error::NotEnoughSamples || err == Error::NotEnoughSpace) {
@@ -477,8 +477,18 @@ namespace cler {
         std::array<std::chrono::high_resolution_clock::time_point, _N> _block_start_times;
         size_t _active_task_count{0};  // Track actual created tasks to fix stop() hang
         
-        // Initialize block stats with names (only if detailed stats enabled)
+        // Every run starts with fresh stats; names only if detailed stats are enabled
         void initialize_block_stats() {
+            for (auto& stats : _stats) {
+                stats.name = EmbeddableString<64>();
+                stats.successful_procedures = 0;
+                stats.failed_procedures = 0;
+                stats.total_dead_time_s = 0.0;
+                stats.total_runtime_s = 0.0;
+                stats.final_adaptive_sleep_us = 0.0;
+                stats.current_adaptive_sleep_us.store(0.0);
+                stats.consecutive_fails.store(0);
+            }
             if (_config.collect_detailed_stats) {
                 init_stats_impl(std::make_index_sequence<_N>{});
             }
-- 
2.43.0


From 73bc6b4da2486adf36556895379e7e06c589ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 07/84] fix: count progress before a following idle call in
 adaptive sleep, cap the first sleep

An idle call ending a batch that had made progress was counted on top of the
idle calls before that progress, so a block slept after a single idle call; the
first sleep of 1 us ignored a smaller configured maximum.
---
 include/cler.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 02271c3..089e105 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -317,8 +317,9 @@ namespace cler {
                     if (current_sleep == 0.0) {
                         // Start sleeping with 1 microsecond
                         static constexpr double INITIAL_SLEEP_US = 1.0;
-                        stats.current_adaptive_sleep_us.store(INITIAL_SLEEP_US);
-                        TaskPolicy::sleep_us(static_cast<size_t>(INITIAL_SLEEP_US));
+                        double new_sleep = std::min(INITIAL_SLEEP_US, _config.adaptive_sleep_max_us);
+                        stats.current_adaptive_sleep_us.store(new_sleep);
+                        TaskPolicy::sleep_us(static_cast<size_t>(new_sleep));
                     } else {
                         // Exponential backoff with deterministic jitter to prevent thundering herd
                         double base_sleep = current_sleep * _config.adaptive_sleep_multiplier;
@@ -402,6 +403,10 @@ namespace cler {
                             if (config.collect_detailed_stats) {
                                 total_dead_time_s += dt.count();
                             }
+                            if (did_work_in_batch) {
+                                handle_adaptive_sleep(I, true);  // progress came before this idle call
+                                did_work_in_batch = false;
+                            }
                             handle_adaptive_sleep(I, false);
                             break;  // Exit micro-batch loop
                         } else {
@@ -709,8 +714,11 @@ namespace cler {
                     // No progress - leave the burst early to let others run
                     if (err == Error::NotEnoughSamples || err == Error::NotEnoughSpace ||
                         err == Error::NotEnoughSpaceOrSamples) {
+                        if (did_work) {
+                            handle_adaptive_sleep(I, true);  // progress came before this idle call
+                        }
                         handle_adaptive_sleep(I, false);
-                        break;  // Exit micro-batch loop
+                        return did_work;
                     } else {
                         // Soft error, brief relax and stop bursting
                         TaskPolicy::relax();
-- 
2.43.0


From 864732e338bc000d7fcac317c1807addcd6288ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:52 +0000
Subject: [PATCH 08/84] fix: give every error its own text

TERMINATE_FLOWGRAPH and OK read as "Unknown error".
---
 include/cler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cler.hpp b/include/cler.hpp
index 089e105..5afa63c 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -50,12 +50,14 @@ namespace cler {
 
     inline const char* to_str(Error error) {
         switch (error) {
+            case Error::OK: return "OK";
             case Error::Unknown: return "Unknown error";
             case Error::NotEnoughSpace: return "Not enough space in output buffers";
             case Error::NotEnoughSamples: return "Not enough samples in input buffers";
             case Error::NotEnoughSpaceOrSamples: return "Not enough space or samples in buffers";
             case Error::ProcedureError: return "Procedure error";
             case Error::BadData: return "Bad data received";
+            case Error::TERMINATE_FLOWGRAPH: return "TERM: Terminate flowgraph";
             case Error::TERM_InvalidChannelIndex: return "TERM: Invalid channel index";
             case Error::TERM_ProcedureError: return "TERM: Procedure error";
             case Error::TERM_IOError: return "TERM: IO error";
-- 
2.43.0


From 78ba7559ad0818dd61956601b16ae4f1d0778452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 09/84] fix: keep ThreadX and Zephyr control blocks at a stable
 address

create_task returns its wrapper by value while the kernel and the running task kept
pointers to the semaphore and thread blocks inside it: the completion was signalled
on a dead copy and join waited for ever.
---
 .../task_policies/cler_threadx_tpolicy.hpp    | 51 ++++++++-----------
 include/task_policies/cler_zephyr_tpolicy.hpp | 40 +++++++--------
 2 files changed, 41 insertions(+), 50 deletions(-)

diff --git a/include/task_policies/cler_threadx_tpolicy.hpp b/include/task_policies/cler_threadx_tpolicy.hpp
index b35cd7b..950dd37 100644
--- a/include/task_policies/cler_threadx_tpolicy.hpp
+++ b/include/task_policies/cler_threadx_tpolicy.hpp
@@ -27,20 +27,19 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
     using TaskPolicyBase<ThreadXTaskPolicy>::relax;
     using TaskPolicyBase<ThreadXTaskPolicy>::pin_to_core;
     
-    // Structure to hold task data
+    // Structure to hold task data. The control blocks live here, on the heap: the kernel
+    // and the running task keep their addresses, while the wrapper is returned by value.
     struct TaskData {
         void* callable;
         void (*invoke)(void*);
         void (*destroy)(void*);
-        TX_SEMAPHORE* completion_sem;
-        volatile bool task_completed;
+        TX_THREAD thread;
+        TX_SEMAPHORE completion_sem;
+        UCHAR* stack_memory;
     };
     
     struct TaskWrapper {
-        TX_THREAD thread;
-        TX_SEMAPHORE completion_sem;
         TaskData* task_data;
-        UCHAR* stack_memory;
         volatile bool task_completed;
         bool is_valid;
     };
@@ -66,43 +65,38 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
         wrapper.task_completed = false;
         wrapper.task_data = nullptr;
         
-        // Allocate stack memory
-        wrapper.stack_memory = new UCHAR[CLER_THREADX_STACK_SIZE];
-        if (!wrapper.stack_memory) {
-            return wrapper; // Failed allocation
-        }
+        // Allocate task data and stack memory
+        using FuncType = typename std::decay<Func>::type;
+        auto* task_data = new TaskData{};
+        task_data->stack_memory = new UCHAR[CLER_THREADX_STACK_SIZE];
         
         // Create completion semaphore
         static char sem_name[] = "ClerCompletionSem";
         UINT status = tx_semaphore_create(
-            &wrapper.completion_sem,
+            &task_data->completion_sem,
             sem_name,
             0  // Initial count
         );
         
         if (status != TX_SUCCESS) {
-            delete[] wrapper.stack_memory;
+            delete[] task_data->stack_memory;
+            delete task_data;
             return wrapper;
         }
         
-        // Allocate task data
-        using FuncType = typename std::decay<Func>::type;
-        auto* task_data = new TaskData;
         task_data->callable = new FuncType(std::forward<Func>(f));
         task_data->invoke = &TaskHelper<FuncType>::invoke;
         task_data->destroy = &TaskHelper<FuncType>::destroy;
-        task_data->completion_sem = &wrapper.completion_sem;
-        task_data->task_completed = false;
         wrapper.task_data = task_data;
         
         // Create ThreadX thread
         static char thread_name[] = "ClerThread";
         status = tx_thread_create(
-            &wrapper.thread,                    // Thread control block
+            &task_data->thread,                 // Thread control block
             thread_name,                        // Thread name
             thread_entry_point,                 // Thread entry function
             (ULONG)task_data,                  // Thread input
-            wrapper.stack_memory,               // Stack start
+            task_data->stack_memory,            // Stack start
             CLER_THREADX_STACK_SIZE,           // Stack size
             CLER_THREADX_PRIORITY,             // Priority
             CLER_THREADX_PREEMPT_THRESHOLD,    // Preemption threshold
@@ -111,10 +105,10 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
         );
         
         if (status != TX_SUCCESS) {
-            tx_semaphore_delete(&wrapper.completion_sem);
+            tx_semaphore_delete(&task_data->completion_sem);
             task_data->destroy(task_data->callable);
+            delete[] task_data->stack_memory;
             delete task_data;
-            delete[] wrapper.stack_memory;
             wrapper.task_data = nullptr;
             return wrapper;
         }
@@ -126,20 +120,19 @@ struct ThreadXTaskPolicy : TaskPolicyBase<ThreadXTaskPolicy> {
     static void join_task(task_type& wrapper) {
         if (wrapper.is_valid && wrapper.task_data && !wrapper.task_completed) {
             // Wait for thread completion
-            tx_semaphore_get(&wrapper.completion_sem, TX_WAIT_FOREVER);
+            tx_semaphore_get(&wrapper.task_data->completion_sem, TX_WAIT_FOREVER);
             
             // Clean up thread
-            tx_thread_terminate(&wrapper.thread);
-            tx_thread_delete(&wrapper.thread);
-            tx_semaphore_delete(&wrapper.completion_sem);
+            tx_thread_terminate(&wrapper.task_data->thread);
+            tx_thread_delete(&wrapper.task_data->thread);
+            tx_semaphore_delete(&wrapper.task_data->completion_sem);
             
             // Clean up memory
             wrapper.task_data->destroy(wrapper.task_data->callable);
+            delete[] wrapper.task_data->stack_memory;
             delete wrapper.task_data;
-            delete[] wrapper.stack_memory;
             
             wrapper.task_data = nullptr;
-            wrapper.stack_memory = nullptr;
             wrapper.is_valid = false;
             wrapper.task_completed = true;
         }
@@ -168,7 +161,7 @@ private:
         }
         
         // Signal completion
-        tx_semaphore_put(data->completion_sem);
+        tx_semaphore_put(&data->completion_sem);
         
         // Thread will be cleaned up by join_task
     }
diff --git a/include/task_policies/cler_zephyr_tpolicy.hpp b/include/task_policies/cler_zephyr_tpolicy.hpp
index 5961011..18e9384 100644
--- a/include/task_policies/cler_zephyr_tpolicy.hpp
+++ b/include/task_policies/cler_zephyr_tpolicy.hpp
@@ -19,18 +19,19 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
     using TaskPolicyBase<ZephyrTaskPolicy>::relax;
     using TaskPolicyBase<ZephyrTaskPolicy>::pin_to_core;
     
+    // The kernel objects live here, on the heap: the kernel and the running task keep
+    // their addresses, while the wrapper is returned by value.
     struct TaskData {
         void* callable;
         void (*invoke)(void*);
         void (*destroy)(void*);
-        struct k_sem* completion_sem;
-    };
-
-    struct TaskWrapper {
         struct k_thread thread_data;
         k_thread_stack_t* stack_mem;
         struct k_sem completion_sem;
-        TaskData* task_data;
+    };
+
+    struct TaskWrapper {
+        TaskData* task_data = nullptr;
         bool task_completed = false;
     };
 
@@ -51,23 +52,19 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
     static task_type create_task(Func&& f) {
         task_type wrapper;
 
-        wrapper.stack_mem = new k_thread_stack_t[CLER_ZEPHYR_STACK_SIZE];
-        if (!wrapper.stack_mem) return wrapper;
-
-        k_sem_init(&wrapper.completion_sem, 0, 1);
-
         using FuncType = typename std::decay<Func>::type;
-        auto* task_data = new TaskData{
-            new FuncType(std::forward<Func>(f)),
-            &TaskHelper<FuncType>::invoke,
-            &TaskHelper<FuncType>::destroy,
-            &wrapper.completion_sem
-        };
+        auto* task_data = new TaskData{};
+        task_data->callable = new FuncType(std::forward<Func>(f));
+        task_data->invoke = &TaskHelper<FuncType>::invoke;
+        task_data->destroy = &TaskHelper<FuncType>::destroy;
+        task_data->stack_mem = new k_thread_stack_t[CLER_ZEPHYR_STACK_SIZE];
+
+        k_sem_init(&task_data->completion_sem, 0, 1);
 
         wrapper.task_data = task_data;
 
-        k_thread_create(&wrapper.thread_data,
-                        wrapper.stack_mem,
+        k_thread_create(&task_data->thread_data,
+                        task_data->stack_mem,
                         CLER_ZEPHYR_STACK_SIZE,
                         thread_entry_point,
                         task_data, nullptr, nullptr,
@@ -79,11 +76,12 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
 
     static void join_task(task_type& wrapper) {
         if (!wrapper.task_completed && wrapper.task_data) {
-            k_sem_take(&wrapper.completion_sem, K_FOREVER);
+            k_sem_take(&wrapper.task_data->completion_sem, K_FOREVER);
 
             wrapper.task_data->destroy(wrapper.task_data->callable);
+            delete[] wrapper.task_data->stack_mem;
             delete wrapper.task_data;
-            delete[] wrapper.stack_mem;
+            wrapper.task_data = nullptr;
             wrapper.task_completed = true;
         }
     }
@@ -101,7 +99,7 @@ private:
         auto* data = static_cast<TaskData*>(p1);
         if (data && data->callable && data->invoke) {
             data->invoke(data->callable);
-            k_sem_give(data->completion_sem);
+            k_sem_give(&data->completion_sem);
         }
     }
 };
-- 
2.43.0


From 121c43c3c7b6f14930924054b682fb7a951fc2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:41 +0000
Subject: [PATCH 10/84] fix: wait for a Zephyr thread to return before freeing
 its stack

The completion semaphore is given while the thread still runs on that stack.
---
 .../mock_environment/zephyr/kernel.h              | 15 +++++++++++++++
 include/task_policies/cler_zephyr_tpolicy.hpp     |  2 ++
 2 files changed, 17 insertions(+)

diff --git a/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h b/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h
index 43d3987..82c5be8 100644
--- a/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h
+++ b/embedded_examples/zephyr_examples/mock_environment/zephyr/kernel.h
@@ -137,6 +137,21 @@ static inline int k_thread_create(k_thread_t* thread, k_thread_stack_t* stack,
     return 0;
 }
 
+static inline int k_thread_join(k_thread_t* thread, int32_t timeout) {
+    (void)timeout;  // the mock always waits for the end of the thread
+    if (!thread) return -1;
+    if (thread->thread_ptr) {
+        if (thread->thread_ptr->joinable()) {
+            thread->thread_ptr->join();
+        }
+        delete thread->thread_ptr;
+        thread->thread_ptr = nullptr;
+    }
+    delete thread->entry_func;
+    thread->entry_func = nullptr;
+    return 0;
+}
+
 static inline void k_thread_join_and_destroy(k_thread_t* thread) {
     if (!thread) return;
     if (thread->thread_ptr) {
diff --git a/include/task_policies/cler_zephyr_tpolicy.hpp b/include/task_policies/cler_zephyr_tpolicy.hpp
index 18e9384..ac97abc 100644
--- a/include/task_policies/cler_zephyr_tpolicy.hpp
+++ b/include/task_policies/cler_zephyr_tpolicy.hpp
@@ -77,6 +77,8 @@ struct ZephyrTaskPolicy : TaskPolicyBase<ZephyrTaskPolicy> {
     static void join_task(task_type& wrapper) {
         if (!wrapper.task_completed && wrapper.task_data) {
             k_sem_take(&wrapper.task_data->completion_sem, K_FOREVER);
+            // The thread still runs on its stack until it has returned to the kernel
+            k_thread_join(&wrapper.task_data->thread_data, K_FOREVER);
 
             wrapper.task_data->destroy(wrapper.task_data->callable);
             delete[] wrapper.task_data->stack_mem;
-- 
2.43.0


From 88e308390382efb159631504677fd7066502a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:43 +0000
Subject: [PATCH 11/84] fix: chirp source: keep the oscillator state in double
 so that long sweeps stay linear

---
 desktop_blocks/sources/source_chirp.hpp | 33 +++++++++++--------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/desktop_blocks/sources/source_chirp.hpp b/desktop_blocks/sources/source_chirp.hpp
index 5546d8a..ddf9156 100644
--- a/desktop_blocks/sources/source_chirp.hpp
+++ b/desktop_blocks/sources/source_chirp.hpp
@@ -28,15 +28,7 @@ struct SourceChirpBlock : public cler::BlockBase {
         _n_samples_before_reset = static_cast<size_t>(_chirp_duration_s * _sps);
         _k = (_f1_hz - _f0_hz) / _chirp_duration_s; // Hz/s
 
-        // Precompute per-sample sweep rate
-        const float dt = 1.0f / static_cast<float>(_sps);
-        const float w0 = 2.0f * cler::PI * _f0_hz * dt;
-
-        // Precompute second difference method constants
-        _psi = std::polar(1.0f, w0);      // Initial phasor increment
-        _psi_inc = std::polar(1.0f, 2.0f * cler::PI * _k * dt * dt); // Second difference (==acceleration)
-
-        _phasor = std::complex<float>(1.0f, 0.0f); // Unit phasor
+        reset();
 
     }
 
@@ -51,7 +43,7 @@ struct SourceChirpBlock : public cler::BlockBase {
         
         // Generate directly into output buffer
         for (size_t i = 0; i < write_size; ++i) {
-            std::complex<float> chirp = _phasor;
+            std::complex<float> chirp(_phasor);
 
             if constexpr (std::is_same_v<T, std::complex<float>>) {
                 write_ptr[i] = _amplitude * chirp;
@@ -76,11 +68,13 @@ struct SourceChirpBlock : public cler::BlockBase {
 private:
     void reset() {
         _samples_counter = 0;
-        _phasor = std::complex<float>(1.0f, 0.0f);
-        const float dt = 1.0f / static_cast<float>(_sps);
-        const float w0 = 2.0f * cler::PI * _f0_hz * dt;
-        _psi = std::polar(1.0f, w0);
-        _psi_inc = std::polar(1.0f, 2.0f * cler::PI * _k * dt * dt);
+        _phasor = std::complex<double>(1.0, 0.0); // Unit phasor
+
+        // Per-sample phase increment and its change from sample to sample (second difference method)
+        const double dt = 1.0 / static_cast<double>(_sps);
+        const double two_pi = 2.0 * 3.14159265358979323846;
+        _psi = std::polar(1.0, two_pi * _f0_hz * dt);
+        _psi_inc = std::polar(1.0, two_pi * _k * dt * dt);
     }
 
     float _amplitude;
@@ -93,8 +87,9 @@ private:
     float _k;              // Sweep rate (Hz/s)
     size_t _samples_counter = 0;
 
-    // Recursive oscillator state
-    std::complex<float> _phasor;   // Current sample phasor
-    std::complex<float> _psi;      // Current phase increment
-    std::complex<float> _psi_inc;  // Second difference (sweep)
+    // Recursive oscillator state. Kept in double: the sweep per sample of a long chirp
+    // is smaller than the rounding of a float phase increment.
+    std::complex<double> _phasor;   // Current sample phasor
+    std::complex<double> _psi;      // Current phase increment
+    std::complex<double> _psi_inc;  // Second difference (sweep)
 };
-- 
2.43.0


From 6b809677c8e6d795299b7eaecc1262b1d5ce1719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 12/84] fix: noise block: a zero level is no valid deviation of
 std::normal_distribution

---
 desktop_blocks/noise/awgn.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/desktop_blocks/noise/awgn.hpp b/desktop_blocks/noise/awgn.hpp
index 5270083..6527297 100644
--- a/desktop_blocks/noise/awgn.hpp
+++ b/desktop_blocks/noise/awgn.hpp
@@ -24,7 +24,7 @@ struct NoiseAWGNBlock : public cler::BlockBase {
 
         std::random_device rd;
         _rng.seed(rd());
-        _normal_dist = std::normal_distribution<scalar_type>(0.0, _noise_stddev);
+        _normal_dist = std::normal_distribution<scalar_type>(0.0, 1.0); // scaled below: a deviation of 0 is no valid parameter
     }
 
     ~NoiseAWGNBlock() {
@@ -44,11 +44,11 @@ struct NoiseAWGNBlock : public cler::BlockBase {
         // Add noise to buffer
         for (size_t i = 0; i < transferable; ++i) {
             if constexpr (std::is_same_v<T, std::complex<float>> || std::is_same_v<T, std::complex<double>>) {
-                auto n_re = _normal_dist(_rng);
-                auto n_im = _normal_dist(_rng);
+                auto n_re = _noise_stddev * _normal_dist(_rng);
+                auto n_im = _noise_stddev * _normal_dist(_rng);
                 _buffer[i] = _buffer[i] + T{n_re, n_im};
             } else {
-                _buffer[i] = _buffer[i] + _normal_dist(_rng);
+                _buffer[i] = _buffer[i] + _noise_stddev * _normal_dist(_rng);
             }
         }
         
-- 
2.43.0


From 58f9f9da87a4a4668075866d9a7df28aaa31686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:22 +0000
Subject: [PATCH 13/84] fix: resampler: deliver output beyond the space of a
 call at the next one instead of dropping it, and progress with little space

---
 .../resamplers/multistage_resampler.hpp       | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/desktop_blocks/resamplers/multistage_resampler.hpp b/desktop_blocks/resamplers/multistage_resampler.hpp
index 906f368..ea5a5f4 100644
--- a/desktop_blocks/resamplers/multistage_resampler.hpp
+++ b/desktop_blocks/resamplers/multistage_resampler.hpp
@@ -55,8 +55,9 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
             throw std::bad_alloc();
         }
         
-        // Allocate output buffer (sized for maximum expansion case)
-        size_t output_buffer_size = static_cast<size_t>(_buffer_size * _ratio + 100); // Extra space for safety
+        // Allocate output buffer (sized for maximum expansion case). The half-band stages of an
+        // interpolator emit up to `ratio` samples at a time, so allow some inputs' worth on top.
+        size_t output_buffer_size = static_cast<size_t>((_buffer_size + 4.0) * _ratio + 100); // Extra space for safety
         _output_buffer = new T[output_buffer_size];
         if (!_output_buffer) {
             delete[] _input_buffer;
@@ -87,6 +88,16 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
 
     cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<T>* out)
     {
+        // Deliver what an earlier call produced beyond the output space it had
+        if (_pending > 0) {
+            size_t written = out->writeN(_output_buffer + _pending_start, _pending);
+            _pending_start += written;
+            _pending -= written;
+            if (_pending > 0) {
+                return cler::Error::NotEnoughSpace;
+            }
+        }
+
         // Use readN/writeN for simple processing (recommended pattern)
         size_t available_input = in.size();
         size_t available_output = out->space();
@@ -102,7 +113,8 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
         // Calculate max input samples we can process given output space and buffer size
         // For downsample (ratio < 1), we need more input samples than output space
         // For upsample (ratio > 1), we need fewer input samples than output space
-        size_t max_input_by_output = static_cast<size_t>(available_output / _ratio);
+        // At least one: the space may be smaller than what a single input sample expands to
+        size_t max_input_by_output = std::max<size_t>(1, static_cast<size_t>(available_output / _ratio));
         size_t max_input = std::min({available_input, max_input_by_output, _buffer_size});
         
         // Read input samples
@@ -128,8 +140,10 @@ struct MultiStageResamplerBlock : public cler::BlockBase {
             );
         }
         
-        // Write resampled output
-        out->writeN(_output_buffer, n_resampled);
+        // Write resampled output. The number of samples varies from call to call around
+        // max_input * ratio; keep what does not fit for the next call
+        _pending_start = out->writeN(_output_buffer, n_resampled);
+        _pending = n_resampled - _pending_start;
 
         return cler::Empty{};
     }
@@ -141,6 +155,8 @@ private:
     
     T* _input_buffer = nullptr;
     T* _output_buffer = nullptr;
+    size_t _pending_start = 0;  // output not delivered yet: [_pending_start, _pending_start + _pending)
+    size_t _pending = 0;
 
     msresamp_rrrf _msresamp_r = nullptr;
     msresamp_crcf _msresamp_c = nullptr;
-- 
2.43.0


From 2225b64b88fb3766363593c2d43da1c73d1ab76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:58 +0000
Subject: [PATCH 14/84] fix: return released slots to the pool with NDEBUG, too

---
 desktop_blocks/blob.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/blob.cpp b/desktop_blocks/blob.cpp
index 9ff587e..58e8967 100644
--- a/desktop_blocks/blob.cpp
+++ b/desktop_blocks/blob.cpp
@@ -31,5 +31,8 @@ cler::Result<Blob, cler::Error> Slab::take_slot() {
 }
 
 void Slab::release_slot(size_t slot_idx) {
-    assert(_free_slots.try_push(slot_idx));
+    // Not inside the assert: the slot has to come back with NDEBUG, too
+    const bool released = _free_slots.try_push(slot_idx);
+    assert(released && "BUG: more slots released than taken");
+    (void)released;
 }
\ No newline at end of file
-- 
2.43.0


From bd16e9be4787b35d09654c91b987fa94c85dbfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:37 +0000
Subject: [PATCH 15/84] fix: UDP sink: keep the items behind a failed send
 queued, no queue-sized array on the stack

---
 desktop_blocks/udp/sink_udp.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/desktop_blocks/udp/sink_udp.hpp b/desktop_blocks/udp/sink_udp.hpp
index 068e424..6e5c44f 100644
--- a/desktop_blocks/udp/sink_udp.hpp
+++ b/desktop_blocks/udp/sink_udp.hpp
@@ -33,24 +33,24 @@ struct SinkUDPSocketBlock : public cler::BlockBase {
             return cler::Empty{};
         }
 
-        T buffer[available];
-        in.readN(buffer, available);
-
         for (size_t i = 0; i < available; ++i) {
+            // One at a time: after a failed send the rest stays queued instead of getting lost
+            T item;
+            in.pop(item);
             ssize_t bytes;
 
             if constexpr (IS_BLOB) {
                 // Blob-specific: send blob data and release slot
-                bytes = _socket.send(buffer[i].data, buffer[i].len);
+                bytes = _socket.send(item.data, item.len);
                 if (_callback) {
-                    _callback(buffer[i], _callback_context);
+                    _callback(item, _callback_context);
                 }
-                buffer[i].release();
+                item.release();
             } else {
                 // Generic fixed-size
-                bytes = _socket.send(reinterpret_cast<const uint8_t*>(&buffer[i]), sizeof(T));
+                bytes = _socket.send(reinterpret_cast<const uint8_t*>(&item), sizeof(T));
                 if (_callback) {
-                    _callback(buffer[i], _callback_context);
+                    _callback(item, _callback_context);
                 }
             }
 
-- 
2.43.0


From 8aa80e54b1ab46bc94a62ef7b3e35a6bc38fb92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:38 +0000
Subject: [PATCH 16/84] fix: UDP source: deliver each accepted datagram at once
 and in place, keep none back, report socket errors

---
 desktop_blocks/udp/source_udp.hpp | 87 +++++++++++++------------------
 1 file changed, 36 insertions(+), 51 deletions(-)

diff --git a/desktop_blocks/udp/source_udp.hpp b/desktop_blocks/udp/source_udp.hpp
index ae9cb41..69bb686 100644
--- a/desktop_blocks/udp/source_udp.hpp
+++ b/desktop_blocks/udp/source_udp.hpp
@@ -38,75 +38,60 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
             return cler::Error::NotEnoughSpace;
         }
 
-        T buffer[available];
-        size_t count = 0;
-
         for (size_t i = 0; i < available; ++i) {
+            // Only the first datagram is waited for: what arrived must not be held back for more to come
+            const int flags = (i == 0) ? 0 : MSG_DONTWAIT;
+            T item{};
+            ssize_t bytes;
+
             if constexpr (IS_BLOB) {
                 // Blob-specific: slab pooling
                 auto result = _slab.take_slot();
                 if (result.is_err()) break;
 
-                Blob blob = result.unwrap();
-                ssize_t bytes = _socket.recv(blob.data, blob.len);
+                item = result.unwrap();
+                bytes = _socket.recv(item.data, item.len, flags);
+            } else {
+                // Generic fixed-size
+                bytes = _socket.recv(reinterpret_cast<uint8_t*>(&item), sizeof(T), flags);
+            }
 
-                if (bytes == 0) {
-                    blob.release();
-                    return cler::Empty{};
+            if (bytes <= 0) {
+                if constexpr (IS_BLOB) {
+                    item.release();
                 }
-
-                if (bytes < 0) {
-                    int err = -bytes;
-                    switch (err) {
-                        case EAGAIN:
+                int err = -bytes;
+                switch (err) {
+                    case 0:
+                    case EAGAIN:
 #if EAGAIN != EWOULDBLOCK
-                        case EWOULDBLOCK:
+                    case EWOULDBLOCK:
 #endif
-                        case EINTR:
-                            blob.release();
-                            return cler::Empty{};
-
-                        case EMSGSIZE:
-                            blob.release();
-                            return cler::Empty{};
-
-                        default:
-                            blob.release();
-                            return cler::Error::TERM_IOError;
-                    }
-                }
-
-                blob.len = static_cast<size_t>(bytes);
-
-                if (_validate && !_validate(blob, _validate_context)) {
-                    blob.release();
-                    continue;
-                }
+                    case EINTR:
+                    case EMSGSIZE:
+                        return cler::Empty{};
 
-                if (_callback) {
-                    _callback(blob, _callback_context);
+                    default:
+                        return cler::Error::TERM_IOError;
                 }
+            }
 
-                buffer[count++] = blob;
-            } else {
-                // Generic fixed-size
-                ssize_t bytes = _socket.recv(reinterpret_cast<uint8_t*>(&buffer[i]), sizeof(T));
-                if (bytes <= 0) break;
-
-                if (_validate && !_validate(buffer[i], _validate_context)) {
-                    continue;
-                }
+            if constexpr (IS_BLOB) {
+                item.len = static_cast<size_t>(bytes);
+            }
 
-                if (_callback) {
-                    _callback(buffer[i], _callback_context);
+            if (_validate && !_validate(item, _validate_context)) {
+                if constexpr (IS_BLOB) {
+                    item.release();
                 }
+                continue;
+            }
 
-                count++;
+            if (_callback) {
+                _callback(item, _callback_context);
             }
-        }
 
-        if (count > 0) {
-            out->writeN(buffer, count);
+            out->push(item);
         }
 
         return cler::Empty{};
-- 
2.43.0


From f04645fac041391f5f0a738b58b6e2f617a3c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:38 +0000
Subject: [PATCH 17/84] fix: UDP source: limit the wait for a datagram so that
 the flowgraph can stop

---
 desktop_blocks/udp/source_udp.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/udp/source_udp.hpp b/desktop_blocks/udp/source_udp.hpp
index 69bb686..63e1f3d 100644
--- a/desktop_blocks/udp/source_udp.hpp
+++ b/desktop_blocks/udp/source_udp.hpp
@@ -26,7 +26,11 @@ struct SourceUDPSocketBlock : public cler::BlockBase {
           _validate(validate),
           _validate_context(callback_context),
           _callback(callback),
-          _callback_context(callback_context) {}
+          _callback_context(callback_context)
+    {
+        // Come back from time to time, so that the flowgraph can stop while nothing arrives
+        _socket.set_receive_timeout(std::chrono::milliseconds(100));
+    }
 
     cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<T>* out) {
         if (!_socket.is_valid()) {
-- 
2.43.0


From 0503fa69fb7bc2813912a32173eeb8f21fb2b830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:38 +0000
Subject: [PATCH 18/84] fix: accept only decimal ports and non-empty paths as
 socket addresses

---
 desktop_blocks/udp/shared.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/desktop_blocks/udp/shared.cpp b/desktop_blocks/udp/shared.cpp
index c8a68cd..e55a52b 100644
--- a/desktop_blocks/udp/shared.cpp
+++ b/desktop_blocks/udp/shared.cpp
@@ -8,6 +8,9 @@ ParsedAddress parse_address_string(SocketType type, const std::string& addr_str)
     
     if (type == SocketType::UNIX_DGRAM) {
         // For UNIX sockets, the entire string is the path
+        if (addr_str.empty()) {
+            throw std::runtime_error("Invalid address format for UNIX socket. Expected a path");
+        }
         result.address = addr_str;
         result.port = 0;
         return result;
@@ -22,6 +25,11 @@ ParsedAddress parse_address_string(SocketType type, const std::string& addr_str)
     result.address = addr_str.substr(0, colon_pos);
     std::string port_str = addr_str.substr(colon_pos + 1);
     
+    // std::stoi would skip leading blanks, take a sign and ignore trailing text
+    if (port_str.empty() || port_str.find_first_not_of("0123456789") != std::string::npos) {
+        throw std::runtime_error("Invalid port number: " + port_str);
+    }
+    
     try {
         int port_int = std::stoi(port_str);
         if (port_int < 0 || port_int > 65535) {
-- 
2.43.0


From 0ac90f40dcd321a35b0ae467eaf920c183abd065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:38 +0000
Subject: [PATCH 19/84] fix: bind UDP receivers to the address asked for

---
 desktop_blocks/udp/shared.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/desktop_blocks/udp/shared.cpp b/desktop_blocks/udp/shared.cpp
index e55a52b..31ecbaf 100644
--- a/desktop_blocks/udp/shared.cpp
+++ b/desktop_blocks/udp/shared.cpp
@@ -138,6 +138,10 @@ void GenericDatagramSocket::bind(const std::string& bind_addr_or_path, uint16_t
         local_addr.sin_family = AF_INET;
         local_addr.sin_port = htons(port);
         local_addr.sin_addr.s_addr = INADDR_ANY;
+        if (!bind_addr_or_path.empty() &&
+            inet_pton(AF_INET, bind_addr_or_path.c_str(), &local_addr.sin_addr) <= 0) {
+            throw std::runtime_error("GenericDatagramSocket: invalid IPv4 address: " + bind_addr_or_path);
+        }
 
         // Enable address reuse for quick rebinding
         int opt = 1;
@@ -154,6 +158,10 @@ void GenericDatagramSocket::bind(const std::string& bind_addr_or_path, uint16_t
         local_addr6.sin6_family = AF_INET6;
         local_addr6.sin6_port = htons(port);
         local_addr6.sin6_addr = in6addr_any;
+        if (!bind_addr_or_path.empty() &&
+            inet_pton(AF_INET6, bind_addr_or_path.c_str(), &local_addr6.sin6_addr) <= 0) {
+            throw std::runtime_error("GenericDatagramSocket: invalid IPv6 address: " + bind_addr_or_path);
+        }
 
         int opt = 1;
         if (setsockopt(_sockfd, SOL_SOCKET, SO_REUSEADDR, &opt, sizeof(opt)) < 0) {
-- 
2.43.0


From 6f97d655ad53e1b8996ced802d1d90705de80fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:01 +0000
Subject: [PATCH 20/84] fix: refuse a socket destination without a host

---
 desktop_blocks/udp/shared.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/desktop_blocks/udp/shared.cpp b/desktop_blocks/udp/shared.cpp
index 31ecbaf..b64f739 100644
--- a/desktop_blocks/udp/shared.cpp
+++ b/desktop_blocks/udp/shared.cpp
@@ -118,6 +118,9 @@ GenericDatagramSocket GenericDatagramSocket::make_sender(SocketType type,
                                         const std::string& dest_addr_str)
 {
     ParsedAddress parsed = parse_address_string(type, dest_addr_str);
+    if (parsed.address.empty()) {
+        throw std::runtime_error("GenericDatagramSocket: a sender needs a destination address");
+    }
     return GenericDatagramSocket(type, parsed.address, parsed.port);
 }
 
-- 
2.43.0


From a00ff701452f0d2f2423b51a5f6e57b5f682dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:39 +0000
Subject: [PATCH 21/84] fix: do not report leftovers of earlier data in fields
 a Mode S message lacks

---
 desktop_blocks/adsb/modes.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index e7d52e3..5360623 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -564,8 +564,11 @@ void mode_s_decode(mode_s_t *self, struct mode_s_msg *mm, unsigned char *msg)
 {
 	uint32_t crc2; // Computed CRC, used to verify the message CRC.
 
-	// Work on our local copy
-	memcpy(mm->msg, msg, MODE_S_LONG_MSG_BYTES);
+	// Work on our local copy, fields the message does not carry read as zero
+	unsigned char received[MODE_S_LONG_MSG_BYTES];
+	memcpy(received, msg, MODE_S_LONG_MSG_BYTES);
+	memset(mm, 0, sizeof(*mm));
+	memcpy(mm->msg, received, MODE_S_LONG_MSG_BYTES);
 	msg = mm->msg;
 
 	// Get the message type ASAP as other operations depend on this
-- 
2.43.0


From 202ace4e0d407b08722b5651b537bda971f9dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:39 +0000
Subject: [PATCH 22/84] fix: never repair a Mode S message into one of another
 type

---
 desktop_blocks/adsb/modes.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index 5360623..73fa90e 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -13,6 +13,7 @@
 #define MODE_S_PREAMBLE_US 8       		// microseconds
 #define MODE_S_LONG_MSG_BITS 112
 #define MODE_S_SHORT_MSG_BITS 56
+#define MODE_S_DF_BITS 5                // decide what the checksum means, never corrected
 #define MODE_S_FULL_LEN (MODE_S_PREAMBLE_US+MODE_S_LONG_MSG_BITS)
 #define MODE_S_UNIT_METERS 1
 #define MODE_S_ICAO_CACHE_TTL 60   		// Time to live of cached addresses.
@@ -326,7 +327,7 @@ int fix_single_bit_errors(unsigned char *msg, int bits)
 	int j;
 	unsigned char aux[MODE_S_LONG_MSG_BITS/8];
 
-	for (j = 0; j < bits; j++) 
+	for (j = MODE_S_DF_BITS; j < bits; j++) 
 	{
 		int byte = j/8;
 		int bitmask = 1 << (7-(j%8));
@@ -360,7 +361,7 @@ int fix_two_bits_errors(unsigned char *msg, int bits)
 	int j, i;
 	unsigned char aux[MODE_S_LONG_MSG_BITS/8];
 
-	for (j = 0; j < bits; j++) 
+	for (j = MODE_S_DF_BITS; j < bits; j++) 
 	{
 		int byte1 = j/8;
 		int bitmask1 = 1 << (7-(j%8));
-- 
2.43.0


From 004d146022ad5e1387f7257cef4877c62cdf5a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:43 +0000
Subject: [PATCH 23/84] fix: read the speed codes of airborne velocity messages
 as the standard defines them

---
 desktop_blocks/adsb/modes.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index 73fa90e..73e241f 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -729,14 +729,16 @@ void mode_s_decode(mode_s_t *self, struct mode_s_msg *mm, unsigned char *msg)
 				mm->vert_rate_sign = (msg[8]&0x8) >> 3;
 				mm->vert_rate = ((msg[8]&7) << 6) | ((msg[9]&0xfc) >> 2);
 
-				// Compute velocity and angle from the two speed components
-				mm->velocity = sqrt(mm->ns_velocity*mm->ns_velocity+
-									mm->ew_velocity*mm->ew_velocity);
+				// Compute velocity and angle from the two speed components. They
+				// are coded from 1 for no speed, 0 is for unknown, in steps of a
+				// knot for subsonic and of four knots for supersonic aircraft.
+				int knots = (mm->mesub == 2) ? 4 : 1;
+				int ewv = mm->ew_velocity ? (mm->ew_velocity - 1) * knots : 0;
+				int nsv = mm->ns_velocity ? (mm->ns_velocity - 1) * knots : 0;
+				mm->velocity = sqrt((double)nsv*nsv + (double)ewv*ewv);
 				
 				if (mm->velocity) 
 				{
-					int ewv = mm->ew_velocity;
-					int nsv = mm->ns_velocity;
 					double heading;
 
 					if (mm->ew_dir) ewv *= -1;
-- 
2.43.0


From 6fbee803947f92940d0ac9033c310b45d94b584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:55 +0000
Subject: [PATCH 24/84] fix: stay within sample buffers shorter than a Mode S
 message

---
 desktop_blocks/adsb/modes.c      | 3 +++
 desktop_blocks/adsb/modes_2400.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index 73e241f..aabe4fd 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -865,6 +865,9 @@ void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callba
 	// 8   --
 	// 9   -------------------
 
+	// A buffer too short for a whole message has nothing to look at
+	if (maglen < MODE_S_FULL_LEN*2) return;
+
 	for (j = 0; j < maglen - MODE_S_FULL_LEN*2; j++)
 	{
 		int low, high, delta, i, errors;
diff --git a/desktop_blocks/adsb/modes_2400.c b/desktop_blocks/adsb/modes_2400.c
index bee74fe..fdca41e 100644
--- a/desktop_blocks/adsb/modes_2400.c
+++ b/desktop_blocks/adsb/modes_2400.c
@@ -28,6 +28,9 @@ void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_c
 
     msg = msg1;
 
+    // A buffer too short for a whole message has nothing to look at
+    if (maglen < 300) return;
+
     for (j = 0; j < maglen - 300; j++) {
         uint16_t *preamble = &mag[j];
         int high;
-- 
2.43.0


From 7aa257c95a606c1548fb4e0523864ef434b2627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:55 +0000
Subject: [PATCH 25/84] fix: saturate the phase correction of strong Mode S
 signals instead of wrapping

---
 desktop_blocks/adsb/modes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index aabe4fd..70733dc 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -819,7 +819,8 @@ void apply_phase_correction(uint16_t *mag)
 		if (mag[j] > mag[j+1])
 		{
 			// One
-			mag[j+2] = (mag[j+2] * 5) / 4;
+			uint32_t amplified = ((uint32_t)mag[j+2] * 5) / 4;
+			mag[j+2] = amplified > UINT16_MAX ? UINT16_MAX : amplified;
 		}
 		else
 		{
-- 
2.43.0


From 465e865134c8cdfdf2c8615d41587ccca29f59ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:55 +0000
Subject: [PATCH 26/84] fix: report a Mode S message sampled at 2.4 MHz once
 and without stale bytes

---
 desktop_blocks/adsb/modes_2400.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/adsb/modes_2400.c b/desktop_blocks/adsb/modes_2400.c
index fdca41e..223b366 100644
--- a/desktop_blocks/adsb/modes_2400.c
+++ b/desktop_blocks/adsb/modes_2400.c
@@ -103,11 +103,11 @@ void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_c
         for (try_phase = 4; try_phase <= 8; ++try_phase) {
             uint16_t *pPtr;
             int phase, i, bytelen;
-            int errors = 0;
 
             pPtr = &mag[j + 19] + (try_phase / 5);
             phase = try_phase % 5;
             bytelen = 14; // MODE_S_LONG_MSG_BYTES
+            memset(msg, 0, 14); // bytes a short message does not have
 
             for (i = 0; i < bytelen; ++i) {
                 uint8_t theByte = 0;
@@ -211,6 +211,10 @@ void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_c
             mode_s_decode(self, &mm, bestmsg);
             if (mm.crcok) {
                 cb(self, &mm, cb_context);
+
+                // Go on after the message (8 us preamble and 1 us per bit), it
+                // may look like one from the neighbouring samples too.
+                j += (8 + mm.msgbits) * 12 / 5 - 3;
             }
         }
     }
-- 
2.43.0


From 6b6c02d9934c08b2343caf159f51467cfa9a45c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:55 +0000
Subject: [PATCH 27/84] fix: do not lose ADS-B messages between two calls or
 for want of output space

---
 desktop_blocks/adsb/adsb_decoder.hpp | 36 ++++++++++++----------------
 desktop_blocks/adsb/modes.c          |  5 ++--
 desktop_blocks/adsb/modes.h          |  4 +++-
 desktop_blocks/adsb/modes_2400.c     |  5 ++--
 desktop_blocks/adsb/modes_2400.h     |  3 ++-
 5 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_decoder.hpp b/desktop_blocks/adsb/adsb_decoder.hpp
index d8d485a..5b0c810 100644
--- a/desktop_blocks/adsb/adsb_decoder.hpp
+++ b/desktop_blocks/adsb/adsb_decoder.hpp
@@ -37,15 +37,12 @@ struct ADSBDecoderBlock : public cler::BlockBase {
     }
 
     cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<mode_s_msg>* out) {
-        static size_t call_count = 0;
-        static size_t total_samples = 0;
-
         auto [read_ptr, read_size] = in.read_dbf();
 
-        // Mode S detection requires at least MODES_LONG_MSG_SAMPLES samples
-        // (preamble + longest message at 2 samples per bit)
-        constexpr size_t MODES_LONG_MSG_SAMPLES = 240;  // 16 preamble + 112*2 bits
-        if (read_size < MODES_LONG_MSG_SAMPLES) {
+        // A message is only looked for where the longest one (preamble + 112
+        // bits) still fits into the samples
+        const size_t longest_message = (_mode == SampleRateMode::RATE_2MHZ) ? 240 : 300;
+        if (read_size <= longest_message) {
             return cler::Error::NotEnoughSamples;
         }
 
@@ -57,22 +54,27 @@ struct ADSBDecoderBlock : public cler::BlockBase {
         // Limit to buffer size to prevent overflow
         size_t to_process = std::min(read_size, BUFFER_ELEMENTS);
 
-        memcpy(_tmp_buffer, read_ptr, to_process * sizeof(uint16_t));
-        in.commit_read(to_process);
+        // and to what cannot hold more messages than there is space for
+        constexpr size_t shortest_message = 128; // preamble + 56 bits at 2 MHz
+        to_process = std::min(to_process, longest_message + std::min(write_space, BUFFER_ELEMENTS) * shortest_message);
 
-        total_samples += to_process;
-        call_count++;
+        memcpy(_tmp_buffer, read_ptr, to_process * sizeof(uint16_t));
 
         CallbackContext ctx;
         ctx.out_channel = out;
         ctx.df_filter = _df_filter;
 
+        uint32_t processed;
         if (_mode == SampleRateMode::RATE_2MHZ) {
-            mode_s_detect(&_decoder_state, _tmp_buffer, to_process, on_message_detected, &ctx);
+            processed = mode_s_detect(&_decoder_state, _tmp_buffer, to_process, on_message_detected, &ctx);
         } else {
-            mode_s_detect_2400(&_decoder_state, _tmp_buffer, to_process, on_message_detected, &ctx);
+            processed = mode_s_detect_2400(&_decoder_state, _tmp_buffer, to_process, on_message_detected, &ctx);
         }
 
+        // The rest may hold the start of a message, it is looked at again
+        // together with the samples to come
+        in.commit_read(processed);
+
         return cler::Empty{};
     }
 
@@ -94,14 +96,6 @@ private:
     };
 
     static void on_message_detected(mode_s_t* self, struct mode_s_msg* mm, void* context) {
-        static size_t total_messages = 0;
-        static size_t good_crc_messages = 0;
-
-        total_messages++;
-        if (mm->crcok) {
-            good_crc_messages++;
-        }
-
         (void)self;
         CallbackContext* ctx = static_cast<CallbackContext*>(context);
 
diff --git a/desktop_blocks/adsb/modes.c b/desktop_blocks/adsb/modes.c
index 70733dc..9fb1b3f 100644
--- a/desktop_blocks/adsb/modes.c
+++ b/desktop_blocks/adsb/modes.c
@@ -834,7 +834,7 @@ void apply_phase_correction(uint16_t *mag)
 // Detect a Mode S messages inside the magnitude buffer pointed by 'mag' and of
 // size 'maglen' bytes. Every detected Mode S message is convert it into a
 // stream of bits and passed to the function to display it.
-void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context)
+uint32_t mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context)
 {
 	//printf("[MODES] Starting Mode S message detection on %u samples\n", maglen);
 	unsigned char bits[MODE_S_LONG_MSG_BITS];
@@ -867,7 +867,7 @@ void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callba
 	// 9   -------------------
 
 	// A buffer too short for a whole message has nothing to look at
-	if (maglen < MODE_S_FULL_LEN*2) return;
+	if (maglen < MODE_S_FULL_LEN*2) return 0;
 
 	for (j = 0; j < maglen - MODE_S_FULL_LEN*2; j++)
 	{
@@ -1060,4 +1060,5 @@ void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callba
 		}
         
 	}
+	return j;
 }
diff --git a/desktop_blocks/adsb/modes.h b/desktop_blocks/adsb/modes.h
index 606c5b3..e3677e0 100644
--- a/desktop_blocks/adsb/modes.h
+++ b/desktop_blocks/adsb/modes.h
@@ -85,7 +85,9 @@ struct mode_s_msg
 typedef void (*mode_s_callback_t)(mode_s_t *self, struct mode_s_msg *mm, void *context);
 
 void mode_s_init(mode_s_t *self);
-void mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *context);
+// Returns the number of samples dealt with: a message starting later needs more
+// samples than were there, so hand in the rest again, followed by new ones.
+uint32_t mode_s_detect(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *context);
 void mode_s_decode(mode_s_t *self, struct mode_s_msg *mm, unsigned char *msg);
 void mode_s_display_message(struct mode_s_msg *mm);
 
diff --git a/desktop_blocks/adsb/modes_2400.c b/desktop_blocks/adsb/modes_2400.c
index 223b366..e5ee66d 100644
--- a/desktop_blocks/adsb/modes_2400.c
+++ b/desktop_blocks/adsb/modes_2400.c
@@ -20,7 +20,7 @@ static inline int slice_phase4(uint16_t *m) {
     return m[0] + 5 * m[1] - 5 * m[2] - m[3];
 }
 
-void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context) {
+uint32_t mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context) {
     uint32_t j;
     unsigned char msg1[14], msg2[14], *msg;
     unsigned char *bestmsg;
@@ -29,7 +29,7 @@ void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_c
     msg = msg1;
 
     // A buffer too short for a whole message has nothing to look at
-    if (maglen < 300) return;
+    if (maglen < 300) return 0;
 
     for (j = 0; j < maglen - 300; j++) {
         uint16_t *preamble = &mag[j];
@@ -218,4 +218,5 @@ void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_c
             }
         }
     }
+    return j;
 }
diff --git a/desktop_blocks/adsb/modes_2400.h b/desktop_blocks/adsb/modes_2400.h
index 00925ea..6861e06 100644
--- a/desktop_blocks/adsb/modes_2400.h
+++ b/desktop_blocks/adsb/modes_2400.h
@@ -9,7 +9,8 @@ extern "C" {
 
 // 2.4 MSPS Mode S detector
 // Uses the same callback interface as modes.h but with 2.4MHz sampling
-void mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context);
+// and returns the number of samples dealt with alike
+uint32_t mode_s_detect_2400(mode_s_t *self, uint16_t *mag, uint32_t maglen, mode_s_callback_t cb, void *cb_context);
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From aaa6299676577b32fc16aa6fafaa909bded09f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:55 +0000
Subject: [PATCH 28/84] fix: make changing the filter of a running ADS-B
 decoder free of data races

---
 desktop_blocks/adsb/adsb_decoder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/adsb/adsb_decoder.hpp b/desktop_blocks/adsb/adsb_decoder.hpp
index 5b0c810..3a36d2f 100644
--- a/desktop_blocks/adsb/adsb_decoder.hpp
+++ b/desktop_blocks/adsb/adsb_decoder.hpp
@@ -3,6 +3,7 @@
 #include "cler.hpp"
 #include "desktop_blocks/adsb/modes.h"
 #include "desktop_blocks/adsb/modes_2400.h"
+#include <atomic>
 #include <cstring>
 #include <algorithm>
 
@@ -86,7 +87,7 @@ struct ADSBDecoderBlock : public cler::BlockBase {
 private:
     mode_s_t _decoder_state;
     SampleRateMode _mode;
-    uint32_t _df_filter;
+    std::atomic<uint32_t> _df_filter;
     uint16_t* _tmp_buffer = nullptr;
 
     // Context for callback
-- 
2.43.0


From f325f408512812aaa10c598e764a74097f92f19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:18 +0000
Subject: [PATCH 29/84] fix: decode positions at exactly 87 degrees latitude

---
 desktop_blocks/adsb/cpr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_blocks/adsb/cpr.c b/desktop_blocks/adsb/cpr.c
index 3f8187b..51c99c5 100644
--- a/desktop_blocks/adsb/cpr.c
+++ b/desktop_blocks/adsb/cpr.c
@@ -131,7 +131,7 @@ static int cprNLFunction(double lat) {
     if (lat < 84.89166191) return 5;
     if (lat < 85.75541621) return 4;
     if (lat < 86.53536998) return 3;
-    if (lat < 87.00000000) return 2;
+    if (lat <= 87.00000000) return 2; // the standard has 87 degrees itself in two zones
     else return 1;
 }
 //
-- 
2.43.0


From 335a61c16fe611ce0a4d72a1fbff8b21b456b755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:18 +0000
Subject: [PATCH 30/84] fix: decode positions across the date line from their
 reference

---
 desktop_blocks/adsb/cpr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/adsb/cpr.c b/desktop_blocks/adsb/cpr.c
index 51c99c5..903c133 100644
--- a/desktop_blocks/adsb/cpr.c
+++ b/desktop_blocks/adsb/cpr.c
@@ -355,12 +355,14 @@ int decodeCPRrelative(double reflat, double reflon,
     m = (int) (floor(reflon/AirDlon) +
                floor(0.5 + cprModDouble(reflon, AirDlon)/AirDlon - fractional_lon));
     rlon = AirDlon * (m + fractional_lon);
-    if (rlon > 180) rlon -= 360;
 
     // Check to see that answer is reasonable - ie no more than 1/2 cell away
     if (fabs(rlon - reflon) > (AirDlon/2))
         return (-1);                               // Time to give up - Longitude error
 
+    // Renormalize to -180 .. +180, the reference may be across the date line
+    rlon -= floor( (rlon + 180) / 360 ) * 360;
+
     *out_lat = rlat;
     *out_lon = rlon;
     return (0);
-- 
2.43.0


From dfc5201360a6e6db836cbb646dcce33f6a415f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:43 +0000
Subject: [PATCH 31/84] fix: decode positions against a reference right on a
 zone border

---
 desktop_blocks/adsb/cpr.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/desktop_blocks/adsb/cpr.c b/desktop_blocks/adsb/cpr.c
index 903c133..29180f0 100644
--- a/desktop_blocks/adsb/cpr.c
+++ b/desktop_blocks/adsb/cpr.c
@@ -61,12 +61,6 @@ static int cprModInt(int a, int b) {
     return res;
 }
 
-static double cprModDouble(double a, double b) {
-    double res = fmod(a, b);
-    if (res < 0) res += b;
-    return res;
-}
-
 //
 //=========================================================================
 //
@@ -335,8 +329,9 @@ int decodeCPRrelative(double reflat, double reflon,
     AirDlat = (surface ? 90.0 : 360.0) / (fflag ? 59.0 : 60.0);
 
     // Compute the Latitude Index "j"
-    j = (int) (floor(reflat/AirDlat) +
-               floor(0.5 + cprModDouble(reflat, AirDlat)/AirDlat - fractional_lat));
+    // (in one step, so that a reference right on a zone border is not put into
+    // one zone by its quotient and into another by its remainder)
+    j = (int) floor(0.5 + reflat/AirDlat - fractional_lat);
     rlat = AirDlat * (j + fractional_lat);
     if (rlat >= 270) rlat -= 360;
 
@@ -352,8 +347,7 @@ int decodeCPRrelative(double reflat, double reflon,
 
     // Compute the Longitude Index "m"
     AirDlon = cprDlonFunction(rlat, fflag, surface);
-    m = (int) (floor(reflon/AirDlon) +
-               floor(0.5 + cprModDouble(reflon, AirDlon)/AirDlon - fractional_lon));
+    m = (int) floor(0.5 + reflon/AirDlon - fractional_lon);
     rlon = AirDlon * (m + fractional_lon);
 
     // Check to see that answer is reasonable - ie no more than 1/2 cell away
-- 
2.43.0


From f072f1217aabae804cee7ebb3aebc186172297dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 32/84] fix: take altitudes below sea level into the aircraft
 table

---
 desktop_blocks/adsb/adsb_aggregate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index 5893455..b48a751 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -69,7 +69,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
             }
 
             // Update altitude if present
-            if (msg.altitude > 0) {
+            if (msg.altitude != 0) {
                 if (state.altitude != msg.altitude) {
                     state.altitude = msg.altitude;
                     state_changed = true;
-- 
2.43.0


From d505dac5f0b3aecee78b63d4027e3dfdf35eb195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 33/84] fix: do not overwrite an aircraft's speed and track
 with values its message does not give

---
 desktop_blocks/adsb/adsb_aggregate.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index b48a751..27b0b4e 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -78,14 +78,20 @@ struct ADSBAggregateBlock : public cler::BlockBase {
 
             // Update velocity if present (DF17 metype 19)
             if (msg.msgtype == 17 && msg.metype == 19) {
-                if (msg.velocity > 0) {
-                    if (static_cast<int>(state.groundspeed) != msg.velocity) {
-                        state.groundspeed = static_cast<float>(msg.velocity);
-                        state_changed = true;
+                if (msg.mesub == 1 || msg.mesub == 2) {
+                    // Ground speed and track, where code 0 means unknown
+                    if (msg.ew_velocity != 0 && msg.ns_velocity != 0) {
+                        if (static_cast<int>(state.groundspeed) != msg.velocity) {
+                            state.groundspeed = static_cast<float>(msg.velocity);
+                            state_changed = true;
+                        }
+                        if (msg.velocity > 0 && static_cast<int>(state.track) != msg.heading) {
+                            state.track = static_cast<float>(msg.heading);
+                            state_changed = true;
+                        }
                     }
-                }
-                if (msg.heading >= 0 && msg.heading <= 360) {
-                    if (static_cast<int>(state.track) != msg.heading) {
+                } else if (msg.mesub == 3 || msg.mesub == 4) {
+                    if (msg.heading_is_valid && static_cast<int>(state.track) != msg.heading) {
                         state.track = static_cast<float>(msg.heading);
                         state_changed = true;
                     }
-- 
2.43.0


From 5569ebddd78826e909263fa8ca7e8090ff58a91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 34/84] fix: give vertical rates in feet per minute and with
 their sign

---
 desktop_blocks/adsb/adsb_aggregate.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index 27b0b4e..5578995 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -97,8 +97,11 @@ struct ADSBAggregateBlock : public cler::BlockBase {
                     }
                 }
                 if (msg.vert_rate != 0) {
-                    if (state.vertical_rate != msg.vert_rate) {
-                        state.vertical_rate = msg.vert_rate;
+                    // Coded from 1 for level flight in steps of 64 feet/minute
+                    int vertical_rate = (msg.vert_rate - 1) * 64;
+                    if (msg.vert_rate_sign) {vertical_rate = -vertical_rate;}
+                    if (state.vertical_rate != vertical_rate) {
+                        state.vertical_rate = vertical_rate;
                         state_changed = true;
                     }
                 }
-- 
2.43.0


From 36f4ed906b980ccf3c57f0ef932feab2cf5ab37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 35/84] fix: do not combine an old with a new position frame
 into a wrong position

---
 desktop_blocks/adsb/adsb_aggregate.hpp | 8 ++++++++
 desktop_blocks/adsb/adsb_types.hpp     | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index 5578995..b2070b5 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -115,12 +115,19 @@ struct ADSBAggregateBlock : public cler::BlockBase {
                     state.last_even_cprlat = msg.raw_latitude;
                     state.last_even_cprlon = msg.raw_longitude;
                     state.has_even_position = true;
+                    state.last_even_time = now;
                 } else {  // Odd frame (fflag == 1)
                     state.last_odd_cprlat = msg.raw_latitude;
                     state.last_odd_cprlon = msg.raw_longitude;
                     state.has_odd_position = true;
+                    state.last_odd_time = now;
                 }
 
+                // Frames too far apart in time are from different places and would
+                // decode to neither, keep only the one just received
+                if (now - state.last_even_time > MAX_CPR_PAIR_AGE) {state.has_even_position = false;}
+                if (now - state.last_odd_time > MAX_CPR_PAIR_AGE) {state.has_odd_position = false;}
+
                 // Try to decode position if we have both even and odd frames
                 if (state.has_even_position && state.has_odd_position) {
                     double lat, lon;
@@ -260,6 +267,7 @@ private:
     bool _coastlines_loaded;
 
     static constexpr size_t MESSAGE_BUFFER_SIZE = 1024;
+    static constexpr uint32_t MAX_CPR_PAIR_AGE = 10; // seconds
     mode_s_msg _msg_buffer[MESSAGE_BUFFER_SIZE];
 
     ImVec2 lat_lon_to_screen(float lat, float lon, ImVec2 canvas_pos, ImVec2 canvas_size) {
diff --git a/desktop_blocks/adsb/adsb_types.hpp b/desktop_blocks/adsb/adsb_types.hpp
index 13d3f37..a10c10c 100644
--- a/desktop_blocks/adsb/adsb_types.hpp
+++ b/desktop_blocks/adsb/adsb_types.hpp
@@ -24,6 +24,8 @@ struct ADSBState {
     int last_odd_cprlon;            // Last odd frame longitude (17 bits)
     bool has_even_position;         // True if we have a valid even position
     bool has_odd_position;          // True if we have a valid odd position
+    uint32_t last_even_time;        // Timestamp of last even frame
+    uint32_t last_odd_time;         // Timestamp of last odd frame
 
     // Altitude and speed (most recent)
     int altitude;                   // Altitude (feet)
@@ -41,6 +43,7 @@ struct ADSBState {
           last_even_cprlat(0), last_even_cprlon(0),
           last_odd_cprlat(0), last_odd_cprlon(0),
           has_even_position(false), has_odd_position(false),
+          last_even_time(0), last_odd_time(0),
           altitude(0), groundspeed(0.0f), track(0.0f), vertical_rate(0),
           last_update_time(0), message_count(0) {
         callsign[0] = '\0';
-- 
2.43.0


From e8349195bb6a34d538cdbab26c964b943f619985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:48 +0000
Subject: [PATCH 36/84] fix: guard the aircraft table against being read while
 it is updated

---
 desktop_blocks/adsb/adsb_aggregate.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index b2070b5..a69420b 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -5,6 +5,7 @@
 #include "adsb_coastline_loader.hpp"
 #include "modes.h"
 #include "cpr.h"
+#include <mutex>
 #include <unordered_map>
 #include <imgui.h>
 #include <cmath>
@@ -44,6 +45,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
         // Process all messages
         for (size_t i = 0; i < to_process; ++i) {
             const mode_s_msg& msg = _msg_buffer[i];
+            std::unique_lock<std::mutex> lock(_aircraft_mutex);
 
             // Get or create aircraft state for this ICAO
             uint32_t icao = (msg.aa1 << 16) | (msg.aa2 << 8) | msg.aa3;
@@ -158,7 +160,10 @@ struct ADSBAggregateBlock : public cler::BlockBase {
 
             // Fire callback if state changed
             if (state_changed && _callback) {
-                _callback(state, _callback_context);
+                // without the lock, so that the callback may ask for aircraft
+                ADSBState updated = state;
+                lock.unlock();
+                _callback(updated, _callback_context);
             }
         }
 
@@ -166,6 +171,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
     }
 
     size_t get_aircrafts(ADSBState* buf, size_t max_count) const {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         size_t count = 0;
         for (const auto& pair : _aircraft) {
             if (count >= max_count) break;
@@ -175,6 +181,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
     }
 
     size_t aircraft_count() const {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         return _aircraft.size();
     }
 
@@ -212,7 +219,7 @@ struct ADSBAggregateBlock : public cler::BlockBase {
         // Draw info text
         ImGui::SetCursorScreenPos(ImVec2(canvas_pos.x + INFO_TEXT_OFFSET_X, canvas_p1.y - INFO_TEXT_OFFSET_Y));
         ImGui::Text("Aircraft: %zu | Center: %.2f°N, %.2f°W | Zoom: %.1fx",
-                    _aircraft.size(), _map_center_lat, -_map_center_lon, _map_zoom);
+                    aircraft_count(), _map_center_lat, -_map_center_lon, _map_zoom);
 
         // Handle mouse interactions
         handle_map_interaction(canvas_pos, canvas_size);
@@ -251,6 +258,7 @@ private:
     static constexpr float INITIAL_WINDOW_SIZE_Y = 800.0f;
 
     std::unordered_map<uint32_t, ADSBState> _aircraft;
+    mutable std::mutex _aircraft_mutex; // written by procedure(), read by whoever asks or renders
     OnAircraftUpdateCallback _callback;
     void* _callback_context;
 
@@ -345,6 +353,7 @@ private:
     }
 
     void draw_aircraft(ImDrawList* draw_list, ImVec2 canvas_pos, ImVec2 canvas_size) {
+        std::lock_guard<std::mutex> lock(_aircraft_mutex);
         for (const auto& pair : _aircraft) {
             const ADSBState& state = pair.second;
 
-- 
2.43.0


From c75bcf703a01428ad6abd693dc6cb5bc90d75aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 37/84] fix: do not believe the counts and indices of a map
 file beyond its records

---
 desktop_blocks/adsb/adsb_coastline_loader.hpp | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_coastline_loader.hpp b/desktop_blocks/adsb/adsb_coastline_loader.hpp
index 9a397a8..ac0cc7c 100644
--- a/desktop_blocks/adsb/adsb_coastline_loader.hpp
+++ b/desktop_blocks/adsb/adsb_coastline_loader.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <vector>
 #include <cstdint>
 #include <cstring>
@@ -51,7 +52,7 @@ struct CoastlineData {
             file.read(reinterpret_cast<char*>(&record_len_be), 4);
 
             // Convert from big-endian (shapefile uses big-endian)
-            uint32_t record_len = swap_endian(record_len_be) * 2;  // Length in 16-bit words, convert to bytes
+            uint64_t record_len = static_cast<uint64_t>(swap_endian(record_len_be)) * 2;  // Length in 16-bit words, convert to bytes
 
             if (offset + 8 + record_len > static_cast<size_t>(file_size)) break;
 
@@ -73,6 +74,9 @@ struct CoastlineData {
     }
 
 private:
+    // Shape type, bounding box and the numbers of parts and points
+    static constexpr uint64_t POLYLINE_FIXED_LEN = 4 + 32 + 4 + 4;
+
     // Swap endianness (big-endian to little-endian)
     static uint32_t swap_endian(uint32_t val) {
         return ((val & 0x000000FFU) << 24) |
@@ -101,7 +105,11 @@ private:
                ((val & 0xFF00000000000000ULL) >> 56);
     }
 
-    void parse_polyline(std::ifstream& file, uint32_t record_len) {
+    void parse_polyline(std::ifstream& file, uint64_t record_len) {
+        if (record_len < POLYLINE_FIXED_LEN) {
+            return; // too short for what every polyline has
+        }
+
         // After shape type (4 bytes already read)
 
         // Bounding box (32 bytes: xmin, ymin, xmax, ymax as doubles)
@@ -121,10 +129,21 @@ private:
             return;
         }
 
+        // The counts come from the file: believe them only if the record is that long
+        if (POLYLINE_FIXED_LEN + 4ULL * num_parts + 16ULL * num_points > record_len) {
+            return;
+        }
+
         // Read part indices (each part is a uint32)
         std::vector<uint32_t> part_indices(num_parts);
         file.read(reinterpret_cast<char*>(part_indices.data()), num_parts * 4);
 
+        // Parts are runs of the points, one after the other
+        if (part_indices[0] != 0 || part_indices.back() > num_points ||
+            !std::is_sorted(part_indices.begin(), part_indices.end())) {
+            return;
+        }
+
         // Read all points and organize by parts
         for (uint32_t part_idx = 0; part_idx < num_parts; ++part_idx) {
             uint32_t start_point = part_indices[part_idx];
-- 
2.43.0


From ca2bdb608eccba03dbfbba84b753f568f1d3b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 38/84] fix: do not report an earlier map file's content as
 that of the one loaded

---
 desktop_blocks/adsb/adsb_coastline_loader.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/desktop_blocks/adsb/adsb_coastline_loader.hpp b/desktop_blocks/adsb/adsb_coastline_loader.hpp
index ac0cc7c..1ca5dc2 100644
--- a/desktop_blocks/adsb/adsb_coastline_loader.hpp
+++ b/desktop_blocks/adsb/adsb_coastline_loader.hpp
@@ -21,6 +21,8 @@ struct CoastlineData {
     std::vector<std::vector<std::pair<float, float>>> polylines;  // List of polylines (each is lat/lon pairs)
 
     bool load_from_shapefile(const char* shp_path) {
+        polylines.clear(); // of an earlier file
+
         std::ifstream file(shp_path, std::ios::binary);
         if (!file.is_open()) {
             return false;
-- 
2.43.0


From 3be673d7cb9964978af8e9bb26b2a035bb2fae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:57 +0000
Subject: [PATCH 39/84] fix: EZGmskModBlock waited for eight times the space of
 a frame, or for ever

The space was compared with the frame's size in bytes, and a frame longer than
the output channel was never sent at all. Send a frame in parts as space allows.
---
 desktop_blocks/ezgmsk/ezgmsk_mod.hpp | 31 +++++++++++++++++-----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/desktop_blocks/ezgmsk/ezgmsk_mod.hpp b/desktop_blocks/ezgmsk/ezgmsk_mod.hpp
index bf79ef2..33283fc 100644
--- a/desktop_blocks/ezgmsk/ezgmsk_mod.hpp
+++ b/desktop_blocks/ezgmsk/ezgmsk_mod.hpp
@@ -2,6 +2,7 @@
 
 #include "cler.hpp"
 #include "liquid.h"
+#include <algorithm>
 #include <vector>
 #include "../blob.hpp"
 
@@ -43,27 +44,32 @@ struct EZGmskModBlock : public cler::BlockBase {
         const Blob* ptr1, *ptr2;
         size_t size1, size2;
         size_t available = in.peek_read(ptr1, size1, ptr2, size2);
-        
+
         for (size_t i = 0; i < available; ++i) {
             Blob* blob = const_cast<Blob*>(
                 (i < size1) ? (ptr1 + i) : (ptr2 + i - size1)
             );
-            ezgmsk::ezgmsk_mod_assemble(_mod, blob->data, blob->len);
+            if (_samples_left == 0) {
+                ezgmsk::ezgmsk_mod_assemble(_mod, blob->data, blob->len);
+                _samples_left = ezgmsk::ezgmsk_mod_get_frame_len(_mod);
+            }
 
-            unsigned int frame_len = ezgmsk::ezgmsk_mod_get_frame_len(_mod);
+            // A frame may be longer than the space: send what fits, go on with the rest later
             auto [write_ptr, write_space] = out->write_dbf();
-
-            if (write_space < frame_len * sizeof(liquid_float_complex)) {
+            size_t to_write = std::min(write_space, _samples_left);
+            if (to_write > 0) {
+                ezgmsk::ezgmsk_mod_execute(
+                _mod,
+                reinterpret_cast<liquid_float_complex*>(write_ptr),
+                static_cast<unsigned int>(to_write)
+                );
+                out->commit_write(to_write);
+                _samples_left -= to_write;
+            }
+            if (_samples_left > 0) {
                 break;
             }
 
-            ezgmsk::ezgmsk_mod_execute(
-            _mod,
-            reinterpret_cast<liquid_float_complex*>(write_ptr),
-            frame_len
-            );
-
-            out->commit_write(frame_len);
             ezgmsk::ezgmsk_mod_reset(_mod);
 
             blob->release();
@@ -78,4 +84,5 @@ private:
     unsigned int _m;
     float _BT;
     unsigned int _preamble_len;
+    size_t _samples_left = 0; // of the frame being sent
 };
-- 
2.43.0


From 9cd5f6102cc3c6ca95a313e3ae752d3ef10cefca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:57 +0000
Subject: [PATCH 40/84] fix: ezgmsk_mod repeated the last preamble symbol in a
 frame without data

---
 desktop_blocks/ezgmsk/_ezgmsk_mod.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/ezgmsk/_ezgmsk_mod.c b/desktop_blocks/ezgmsk/_ezgmsk_mod.c
index 927c819..a8c44b4 100644
--- a/desktop_blocks/ezgmsk/_ezgmsk_mod.c
+++ b/desktop_blocks/ezgmsk/_ezgmsk_mod.c
@@ -262,9 +262,9 @@ int ezgmsk_mod_write_preamble(ezgmsk_mod _q)
 int ezgmsk_mod_write_data(ezgmsk_mod _q)
 {
     if (_q->data_len == 0) {
-        // skip data if length is zero
+        // skip data if length is zero, straight to the first tail symbol
         _q->state = EZGMSK_MOD_STATE_TAIL;
-        return LIQUID_OK;
+        return ezgmsk_mod_write_tail(_q);
     }
 
     // determine byte and bit indices
-- 
2.43.0


From 981e28cf41b2600eab6aa48dedd55b89c7b0f963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:57 +0000
Subject: [PATCH 41/84] fix: ezgmsk_demod aborted on signals that are not a
 preamble

The timing estimate of a false detection may lie outside half a sample or be no
number; keep it in range.
---
 desktop_blocks/ezgmsk/_ezgmsk_demod.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/ezgmsk/_ezgmsk_demod.c b/desktop_blocks/ezgmsk/_ezgmsk_demod.c
index 0679163..2eff251 100644
--- a/desktop_blocks/ezgmsk/_ezgmsk_demod.c
+++ b/desktop_blocks/ezgmsk/_ezgmsk_demod.c
@@ -428,7 +428,10 @@ int ezgmsk_demod_finalize_preamble_detection(ezgmsk_demod _q)
     // compute delay and filterbank index
     //  tau_hat < 0 :   delay = 2*k*m-1, index = round(   tau_hat *npfb), flag = 0
     //  tau_hat > 0 :   delay = 2*k*m-2, index = round((1-tau_hat)*npfb), flag = 0
-    assert(_q->tau_hat < 0.5f && _q->tau_hat > -0.5f);
+    // the estimate is meaningless (even undefined) if what was detected is not really a
+    // preamble: keep it in range, the sync word search finds out
+    if (!(_q->tau_hat > -0.5f)) _q->tau_hat = -0.499f;
+    if (!(_q->tau_hat <  0.5f)) _q->tau_hat =  0.499f;
     unsigned int delay = 2*_q->k*_q->m - 1; // samples to buffer before computing output
     _q->pfb_soft       = -_q->tau_hat*_q->npfb;
     _q->pfb_index      = (int) roundf(_q->pfb_soft);
-- 
2.43.0


From 0b4293bdc07993d9d94e3c24209f54d7a33b84dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 42/84] fix: mermaid graphs merged blocks whose names differ in
 special characters only

---
 tools/mermaid/src/mermaid_renderer.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tools/mermaid/src/mermaid_renderer.cpp b/tools/mermaid/src/mermaid_renderer.cpp
index 72448c3..6fe42a0 100644
--- a/tools/mermaid/src/mermaid_renderer.cpp
+++ b/tools/mermaid/src/mermaid_renderer.cpp
@@ -2,6 +2,7 @@
 #include <fstream>
 #include <sstream>
 #include <algorithm>
+#include <cctype>
 
 namespace cler {
 
@@ -67,11 +68,19 @@ std::string MermaidRenderer::generate_mermaid(const FlowGraph& flowgraph) {
 std::string MermaidRenderer::get_node_id(const std::string& block_name) {
     if (node_map_.find(block_name) == node_map_.end()) {
         // Create valid Mermaid ID
-        std::string clean_name;
-        for (char c : block_name) {
-            clean_name += std::isalnum(c) ? c : '_';
+        std::string node_id = "node_";
+        for (unsigned char c : block_name) {
+            node_id += std::isalnum(c) ? static_cast<char>(c) : '_';
         }
-        node_map_[block_name] = "node_" + clean_name;
+        // Names that differ in other characters only still are different nodes
+        auto taken = [this](const std::string& id) {
+            return std::any_of(node_map_.begin(), node_map_.end(),
+                               [&](const auto& entry) { return entry.second == id; });
+        };
+        while (taken(node_id)) {
+            node_id += '_';
+        }
+        node_map_[block_name] = node_id;
     }
     return node_map_[block_name];
 }
-- 
2.43.0


From f281a5d9d786a58b19e21850274b87f51cd175a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 43/84] fix: mermaid graphs broke on block names and types with
 special characters

---
 tools/mermaid/src/mermaid_renderer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/mermaid/src/mermaid_renderer.cpp b/tools/mermaid/src/mermaid_renderer.cpp
index 6fe42a0..2ac64de 100644
--- a/tools/mermaid/src/mermaid_renderer.cpp
+++ b/tools/mermaid/src/mermaid_renderer.cpp
@@ -103,7 +103,7 @@ std::string MermaidRenderer::html_escape(const std::string& text) {
 }
 
 std::string MermaidRenderer::create_node_label(const Block& block) const {
-    std::string label = block.name;
+    std::string label = html_escape(block.name);
 
     // Add type (remove 'Block' suffix for cleaner display)
     std::string clean_type = block.type;
@@ -111,7 +111,7 @@ std::string MermaidRenderer::create_node_label(const Block& block) const {
     if (pos != std::string::npos) {
         clean_type.erase(pos, 5);
     }
-    label += "<br/>(" + clean_type + ")";
+    label += "<br/>(" + html_escape(clean_type) + ")";
 
     // Show template parameters with safe HTML escaping
     if (!block.template_params.empty()) {
-- 
2.43.0


From 5b3b29420f3a8f970050b13356d0ba1fd9b5fe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:15 +0000
Subject: [PATCH 44/84] fix: spectrum plots of 4, 6, 8 or 16 bins were wrong

liquid's transforms of these sizes do not work in place.
---
 desktop_blocks/plots/plot_cspectrogram.cpp | 21 ++++++++++++---------
 desktop_blocks/plots/plot_cspectrogram.hpp |  3 ++-
 desktop_blocks/plots/plot_cspectrum.cpp    | 21 ++++++++++++---------
 desktop_blocks/plots/plot_cspectrum.hpp    |  3 ++-
 4 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/desktop_blocks/plots/plot_cspectrogram.cpp b/desktop_blocks/plots/plot_cspectrogram.cpp
index 11515e0..0413d09 100644
--- a/desktop_blocks/plots/plot_cspectrogram.cpp
+++ b/desktop_blocks/plots/plot_cspectrogram.cpp
@@ -47,7 +47,9 @@ PlotCSpectrogramBlock::PlotCSpectrogramBlock(const char*name,
         new (&in[i]) cler::Channel<std::complex<float>>(buffer_size);
     }
 
-    _liquid_inout = new std::complex<float>[_n_fft_samples];
+    // Not in place: liquid's transforms of small sizes need separate buffers
+    _liquid_in = new std::complex<float>[_n_fft_samples];
+    _liquid_out = new std::complex<float>[_n_fft_samples];
     _tmp_y_buffer = new std::complex<float>[_n_fft_samples];
     _tmp_mag_buffer = new float[_n_fft_samples];
 
@@ -63,8 +65,8 @@ PlotCSpectrogramBlock::PlotCSpectrogramBlock(const char*name,
     }
 
     _fftplan = fft_create_plan(_n_fft_samples,
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
+        reinterpret_cast<liquid_float_complex*>(_liquid_in),
+        reinterpret_cast<liquid_float_complex*>(_liquid_out),
         LIQUID_FFT_FORWARD, 0);
 }
 
@@ -75,7 +77,8 @@ PlotCSpectrogramBlock::~PlotCSpectrogramBlock() {
     }
     ::operator delete[](in);
 
-    delete[] _liquid_inout;
+    delete[] _liquid_in;
+    delete[] _liquid_out;
     delete[] _tmp_y_buffer;
     delete[] _tmp_mag_buffer;
 
@@ -108,19 +111,19 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrogramBlock::procedure() {
         auto [read_ptr, read_size] = in[i].read_dbf();
         if (read_ptr && read_size >= _n_fft_samples) {
             // FAST PATH: Copy directly from doubly-mapped buffer
-            memcpy(_liquid_inout, read_ptr, _n_fft_samples * sizeof(std::complex<float>));
+            memcpy(_liquid_in, read_ptr, _n_fft_samples * sizeof(std::complex<float>));
             in[i].commit_read(_n_fft_samples);
         } else {
             // Fall back to standard approach
             in[i].readN(_tmp_y_buffer, _n_fft_samples);
-            memcpy(_liquid_inout, _tmp_y_buffer, _n_fft_samples * sizeof(std::complex<float>));
+            memcpy(_liquid_in, _tmp_y_buffer, _n_fft_samples * sizeof(std::complex<float>));
         }
 
         float coherent_gain = 0.0f;
         for (size_t n = 0; n < _n_fft_samples; ++n) {
             float w = spectral_window_function(_window_type, n / static_cast<float>(_n_fft_samples - 1));
             coherent_gain += w;
-            _liquid_inout[n] *= w * ((n % 2 == 0) ? 1.0f : -1.0f);
+            _liquid_in[n] *= w * ((n % 2 == 0) ? 1.0f : -1.0f);
         }
         coherent_gain /= static_cast<float>(_n_fft_samples);
 
@@ -130,8 +133,8 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrogramBlock::procedure() {
         float scale2 = scale * scale;
 
         for (size_t j = 0; j < _n_fft_samples; ++j) {
-            float re = _liquid_inout[j].real();
-            float im = _liquid_inout[j].imag();
+            float re = _liquid_out[j].real();
+            float im = _liquid_out[j].imag();
             float power = (re * re + im * im) / scale2;
             _tmp_mag_buffer[j] = 10.0f * log10f(power + 1e-20f);
         }
diff --git a/desktop_blocks/plots/plot_cspectrogram.hpp b/desktop_blocks/plots/plot_cspectrogram.hpp
index b54dece..1dc6c7a 100644
--- a/desktop_blocks/plots/plot_cspectrogram.hpp
+++ b/desktop_blocks/plots/plot_cspectrogram.hpp
@@ -35,7 +35,8 @@ private:
     size_t _tall;
     SpectralWindow _window_type;
 
-    std::complex<float>* _liquid_inout;
+    std::complex<float>* _liquid_in;
+    std::complex<float>* _liquid_out;
     std::complex<float>* _tmp_y_buffer;
     float* _tmp_mag_buffer;
 
diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index 870c003..b47b9e7 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -72,7 +72,9 @@ PlotCSpectrumBlock::PlotCSpectrumBlock(const char* name,
 
     _tmp_buffer = new std::complex<float>[_buffer_size];
 
-    _liquid_inout = new std::complex<float>[_n_fft_samples];
+    // Not in place: liquid's transforms of small sizes need separate buffers
+    _liquid_in = new std::complex<float>[_n_fft_samples];
+    _liquid_out = new std::complex<float>[_n_fft_samples];
     _tmp_mag_buffer = new float[_n_fft_samples];
     _freq_bins = new float[_n_fft_samples];
     for (size_t i = 0; i < _n_fft_samples; ++i) {
@@ -88,8 +90,8 @@ PlotCSpectrumBlock::PlotCSpectrumBlock(const char* name,
     }
 
     _fftplan = fft_create_plan(_n_fft_samples,
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
-        reinterpret_cast<liquid_float_complex*>(_liquid_inout),
+        reinterpret_cast<liquid_float_complex*>(_liquid_in),
+        reinterpret_cast<liquid_float_complex*>(_liquid_out),
         LIQUID_FFT_FORWARD, 0);
 }
 
@@ -108,7 +110,8 @@ PlotCSpectrumBlock::~PlotCSpectrumBlock() {
     delete[] _snapshot_buffers;
 
     delete[] _tmp_buffer;
-    delete[] _liquid_inout;
+    delete[] _liquid_in;
+    delete[] _liquid_out;
     delete[] _tmp_mag_buffer;
     delete[] _freq_bins;
     
@@ -229,7 +232,7 @@ void PlotCSpectrumBlock::render() {
         ImPlot::SetupAxes("Frequency [Hz]", "Magnitude [dB]");
 
         for (size_t i = 0; i < _num_inputs; ++i) {
-            memcpy(_liquid_inout,
+            memcpy(_liquid_in,
                    _snapshot_buffers[i],
                    _n_fft_samples * sizeof(std::complex<float>));
 
@@ -237,19 +240,19 @@ void PlotCSpectrumBlock::render() {
             for (size_t n = 0; n < _n_fft_samples; ++n) {
                 float w = spectral_window_function(_window_type, n / static_cast<float>(_n_fft_samples - 1));
                 coherent_gain += w;
-                _liquid_inout[n] *= w;
+                _liquid_in[n] *= w;
             }
             coherent_gain /= static_cast<float>(_n_fft_samples);
 
             fft_execute(_fftplan);
-            fft_shift(_liquid_inout, _n_fft_samples);
+            fft_shift(_liquid_out, _n_fft_samples);
 
             float scale = static_cast<float>(_n_fft_samples) * coherent_gain;
             float scale2 = scale * scale;
 
             for (size_t j = 0; j < _n_fft_samples; ++j) {
-                float re = _liquid_inout[j].real();
-                float im = _liquid_inout[j].imag();
+                float re = _liquid_out[j].real();
+                float im = _liquid_out[j].imag();
                 float power = (re * re + im * im) / scale2;
                 _tmp_mag_buffer[j] = 10.0f * log10f(power + 1e-20f);
             }
diff --git a/desktop_blocks/plots/plot_cspectrum.hpp b/desktop_blocks/plots/plot_cspectrum.hpp
index dbe72a4..36e9a81 100644
--- a/desktop_blocks/plots/plot_cspectrum.hpp
+++ b/desktop_blocks/plots/plot_cspectrum.hpp
@@ -40,7 +40,8 @@ private:
     std::complex<float>** _snapshot_buffers = nullptr;
     std::complex<float>* _tmp_buffer = nullptr;
 
-    std::complex<float>* _liquid_inout = nullptr;
+    std::complex<float>* _liquid_in = nullptr;
+    std::complex<float>* _liquid_out = nullptr;
     float* _freq_bins = nullptr;
     float* _tmp_mag_buffer = nullptr;
     float** _spectrum_avg = nullptr;  // Averaged spectrum for each input
-- 
2.43.0


From 951db57b890c6a2f61b4c0b22117d2796b5fa372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 45/84] fix: plots drew garbage after a burst longer than their
 history

More was dropped from the history than it held.
---
 desktop_blocks/plots/plot_cspectrum.cpp  | 4 ++++
 desktop_blocks/plots/plot_timeseries.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index b47b9e7..614eebc 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -140,6 +140,10 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrumBlock::procedure() {
     if (work_size == 0) {
         return cler::Error::NotEnoughSamples;
     }
+    // An input may hold more than the history does; the rest is for the next call
+    if (work_size > _buffer_size) {
+        work_size = _buffer_size;
+    }
 
     for (size_t i = 0; i < _num_inputs; ++i) {
         size_t commit_size = (_signal_channels[i].size() + work_size > _buffer_size)
diff --git a/desktop_blocks/plots/plot_timeseries.cpp b/desktop_blocks/plots/plot_timeseries.cpp
index 33f6d8d..8ce0c70 100644
--- a/desktop_blocks/plots/plot_timeseries.cpp
+++ b/desktop_blocks/plots/plot_timeseries.cpp
@@ -91,6 +91,10 @@ cler::Result<cler::Empty, cler::Error> PlotTimeSeriesBlock::procedure() {
     if (work_size == 0) {
         return cler::Error::NotEnoughSamples;
     }
+    // An input may hold more than the history does; the rest is for the next call
+    if (work_size > _buffer_size) {
+        work_size = _buffer_size;
+    }
 
     size_t commit_read_size = (_x_channel->size() + work_size > _buffer_size)
         ? (_x_channel->size() + work_size - _buffer_size) : 0;
-- 
2.43.0


From 3be2bce8c320f2d9429c23d5775055cb32fe107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 46/84] fix: PlotTimeSeriesBlock passed a null pointer to
 memcpy

---
 desktop_blocks/plots/plot_timeseries.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/plots/plot_timeseries.cpp b/desktop_blocks/plots/plot_timeseries.cpp
index 8ce0c70..1e2f736 100644
--- a/desktop_blocks/plots/plot_timeseries.cpp
+++ b/desktop_blocks/plots/plot_timeseries.cpp
@@ -165,12 +165,16 @@ void PlotTimeSeriesBlock::render() {
         if (available > 0) {
             _x_channel->peek_read(ptr1, size1, ptr2, size2);
             memcpy(_snapshot_x_buffer, ptr1, size1 * sizeof(float));
-            memcpy(_snapshot_x_buffer + size1, ptr2, size2 * sizeof(float));
+            if (size2 > 0) {
+                memcpy(_snapshot_x_buffer + size1, ptr2, size2 * sizeof(float));
+            }
 
             for (size_t i = 0; i < _num_inputs; ++i) {
                 _y_channels[i].peek_read(ptr1, size1, ptr2, size2);
                 memcpy(_snapshot_y_buffers[i], ptr1, size1 * sizeof(float));
-                memcpy(_snapshot_y_buffers[i] + size1, ptr2, size2 * sizeof(float));
+                if (size2 > 0) {
+                    memcpy(_snapshot_y_buffers[i] + size1, ptr2, size2 * sizeof(float));
+                }
             }
 
             _snapshot_ready_size = available;
-- 
2.43.0


From b56ffab8afe09528d4eebf50d1deebfd2b9ab876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:25 +0000
Subject: [PATCH 47/84] fix: plots read their history while it was being
 replaced

render() runs in the GUI's thread, procedure() in the flowgraph's.
---
 desktop_blocks/plots/plot_cspectrum.cpp  | 3 +++
 desktop_blocks/plots/plot_timeseries.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index 614eebc..a76923d 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -145,6 +145,9 @@ cler::Result<cler::Empty, cler::Error> PlotCSpectrumBlock::procedure() {
         work_size = _buffer_size;
     }
 
+    // render(), in the GUI's thread, reads what is replaced here
+    std::lock_guard<std::mutex> lock(_snapshot_mutex);
+
     for (size_t i = 0; i < _num_inputs; ++i) {
         size_t commit_size = (_signal_channels[i].size() + work_size > _buffer_size)
             ? (_signal_channels[i].size() + work_size - _buffer_size) : 0;
diff --git a/desktop_blocks/plots/plot_timeseries.cpp b/desktop_blocks/plots/plot_timeseries.cpp
index 1e2f736..f8f7371 100644
--- a/desktop_blocks/plots/plot_timeseries.cpp
+++ b/desktop_blocks/plots/plot_timeseries.cpp
@@ -96,6 +96,9 @@ cler::Result<cler::Empty, cler::Error> PlotTimeSeriesBlock::procedure() {
         work_size = _buffer_size;
     }
 
+    // render(), in the GUI's thread, reads what is replaced here
+    std::lock_guard<std::mutex> lock(_snapshot_mutex);
+
     size_t commit_read_size = (_x_channel->size() + work_size > _buffer_size)
         ? (_x_channel->size() + work_size - _buffer_size) : 0;
 
-- 
2.43.0


From 76bbe90bcd1c2b7e4ba07254fa6a3f7d9a9aecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 48/84] fix: SourceAudioFileBlock lost the end of files and
 failed on frames larger than the output's space

Samples that did not fit the output stayed in the decoder, whose refusal of the
next packet ended the flowgraph, and neither the decoder nor the resampler was
drained at the end of the file.
---
 desktop_blocks/sources/source_audio_file.hpp | 137 +++++++++++--------
 1 file changed, 80 insertions(+), 57 deletions(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 2b8cb72..8c3cc4c 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -1,9 +1,11 @@
 #pragma once
 
 #include "cler.hpp"
+#include <algorithm>
 #include <stdexcept>
 #include <string>
 #include <cstring>
+#include <vector>
 
 #ifdef __has_include
     #if __has_include(<libavformat/avformat.h>)
@@ -73,63 +75,19 @@ struct SourceAudioFileBlock : public cler::BlockBase {
         }
 
         size_t samples_written = 0;
-        int ret = 0;
+        bool failed = false;
 
         while (samples_written < write_size) {
-            ret = av_read_frame(_format_ctx, &_packet);
-
-            if (ret == AVERROR_EOF) {
-                if (_repeat) {
-                    // Seek to beginning and retry
-                    av_seek_frame(_format_ctx, _audio_stream_idx, 0, AVSEEK_FLAG_BACKWARD);
-                    avcodec_flush_buffers(_codec_ctx);
-                    continue;
-                } else {
-                    _eof_reached = true;
-                    if (_callback) {
-                        _callback(_filename);
-                    }
-                    break;
-                }
-            } else if (ret < 0) {
-                return cler::Error::TERM_IOError;
-            }
-
-            if (_packet.stream_index != _audio_stream_idx) {
-                av_packet_unref(&_packet);
-                continue;
-            }
-
-            ret = avcodec_send_packet(_codec_ctx, &_packet);
-            av_packet_unref(&_packet);
-
-            if (ret < 0) {
-                return cler::Error::TERM_IOError;
-            }
-
-            while (avcodec_receive_frame(_codec_ctx, _frame) == 0) {
-                // Resample to desired format and sample rate
-                // Prepare output buffer pointer (advance by already-written samples)
-                uint8_t* out_buf = reinterpret_cast<uint8_t*>(write_ptr) + samples_written * sizeof(T);
-                uint8_t* out_bufs[] = {out_buf};
-
-                int frame_count = swr_convert(
-                    _resampler,
-                    out_bufs,
-                    write_size - samples_written,
-                    (const uint8_t**)_frame->data,
-                    _frame->nb_samples
-                );
-
-                if (frame_count < 0) {
-                    return cler::Error::TERM_IOError;
-                }
-
-                samples_written += frame_count;
-
-                if (samples_written >= write_size) {
-                    break;
-                }
+            if (_pending_pos < _pending.size()) {
+                size_t n = std::min(write_size - samples_written, _pending.size() - _pending_pos);
+                std::memcpy(write_ptr + samples_written, _pending.data() + _pending_pos, n * sizeof(T));
+                _pending_pos += n;
+                samples_written += n;
+            } else if (_eof_reached) {
+                break;
+            } else if (!_decode_next()) {
+                failed = true;
+                break;
             }
         }
 
@@ -137,8 +95,14 @@ struct SourceAudioFileBlock : public cler::BlockBase {
             out->commit_write(samples_written);
         }
 
-        if (_eof_reached && samples_written == 0) {
-            return cler::Empty{};
+        if (failed) {
+            return cler::Error::TERM_IOError;
+        }
+
+        if (_eof_reached && _pending_pos == _pending.size()) {
+            if (_callback) {
+                _callback(_filename);
+            }
         }
 
         return cler::Empty{};
@@ -156,6 +120,65 @@ private:
     AVPacket _packet = {};  // Zero-init (no av_init_packet needed)
     int _audio_stream_idx;
     bool _eof_reached;
+    std::vector<T> _pending;    // Resampled samples that are still to be handed out
+    size_t _pending_pos = 0;
+
+    // Resample one frame, or with nullptr what the resampler still holds, into _pending
+    bool _resample(const AVFrame* frame) {
+        const int in_count = frame ? frame->nb_samples : 0;
+        const int max_count = swr_get_out_samples(_resampler, in_count);
+        if (max_count < 0) {
+            return false;
+        }
+        _pending.resize(std::max(max_count, 1));
+        _pending_pos = 0;
+        uint8_t* out_bufs[] = {reinterpret_cast<uint8_t*>(_pending.data())};
+        const int count = swr_convert(
+            _resampler,
+            out_bufs,
+            static_cast<int>(_pending.size()),
+            frame ? (const uint8_t**)frame->extended_data : nullptr,
+            in_count
+        );
+        _pending.resize(std::max(count, 0));
+        return count >= 0;
+    }
+
+    // One step of decoding: take a frame the decoder has ready, or give it the next packet
+    bool _decode_next() {
+        int ret = avcodec_receive_frame(_codec_ctx, _frame);
+        if (ret == 0) {
+            return _resample(_frame);
+        }
+        if (ret == AVERROR_EOF) {
+            // Everything in the file has been decoded
+            if (_repeat) {
+                av_seek_frame(_format_ctx, _audio_stream_idx, 0, AVSEEK_FLAG_BACKWARD);
+                avcodec_flush_buffers(_codec_ctx);
+                return true;
+            }
+            _eof_reached = true;
+            return _resample(nullptr);
+        }
+        if (ret != AVERROR(EAGAIN)) {
+            return false;
+        }
+
+        ret = av_read_frame(_format_ctx, &_packet);
+        if (ret == AVERROR_EOF) {
+            // Have the decoder give out what it still holds
+            return avcodec_send_packet(_codec_ctx, nullptr) >= 0;
+        }
+        if (ret < 0) {
+            return false;
+        }
+        ret = 0;
+        if (_packet.stream_index == _audio_stream_idx) {
+            ret = avcodec_send_packet(_codec_ctx, &_packet);
+        }
+        av_packet_unref(&_packet);
+        return ret >= 0;
+    }
 
     void _open_audio_file() {
         // Open input file
-- 
2.43.0


From f38964ebb267180077847dceb7cd67a2fb84544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 49/84] fix: SourceAudioFileBlock reported the end of its file
 again on every call

---
 desktop_blocks/sources/source_audio_file.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 8c3cc4c..a77881c 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -100,9 +100,10 @@ struct SourceAudioFileBlock : public cler::BlockBase {
         }
 
         if (_eof_reached && _pending_pos == _pending.size()) {
-            if (_callback) {
+            if (_callback && !_eof_reported) {
                 _callback(_filename);
             }
+            _eof_reported = true;
         }
 
         return cler::Empty{};
@@ -120,6 +121,7 @@ private:
     AVPacket _packet = {};  // Zero-init (no av_init_packet needed)
     int _audio_stream_idx;
     bool _eof_reached;
+    bool _eof_reported = false;
     std::vector<T> _pending;    // Resampled samples that are still to be handed out
     size_t _pending_pos = 0;
 
-- 
2.43.0


From 1e1c6b76c0b95cf9c629347346619c221f5b64c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 50/84] fix: SourceAudioFileBlock played files of more than two
 channels as garbage

---
 desktop_blocks/sources/source_audio_file.hpp | 56 +++++++++++++-------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index a77881c..25ff476 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -217,31 +217,51 @@ private:
         // FFmpeg version compatibility: handle channel layout API changes
         #if LIBAVCODEC_VERSION_MAJOR >= 59
             // FFmpeg 5.0+ (libavcodec 59+): New AVChannelLayout API
-            int64_t input_ch_layout = _codec_ctx->ch_layout.nb_channels > 1
-                ? AV_CH_LAYOUT_STEREO
-                : AV_CH_LAYOUT_MONO;
+            AVChannelLayout output_layout;
+            AVChannelLayout input_layout;
+            av_channel_layout_default(&output_layout, 1);   // mono
+            if (_codec_ctx->ch_layout.order == AV_CHANNEL_ORDER_UNSPEC) {
+                // layout not set, derive from channel count
+                av_channel_layout_default(&input_layout, _codec_ctx->ch_layout.nb_channels);
+            } else {
+                input_layout = AVChannelLayout{};
+                ret = av_channel_layout_copy(&input_layout, &_codec_ctx->ch_layout);
+                ffmpeg_check(ret, "Failed to copy channel layout");
+            }
+
+            ret = swr_alloc_set_opts2(
+                &_resampler,
+                &output_layout,               // output: mono
+                AV_SAMPLE_FMT_FLT,            // output: float32
+                _output_sample_rate,          // output: target sample rate
+                &input_layout,                // input: the file's channels
+                _codec_ctx->sample_fmt,       // input: original format
+                _codec_ctx->sample_rate,      // input: original sample rate
+                0,
+                nullptr
+            );
+            av_channel_layout_uninit(&input_layout);
+            ffmpeg_check(ret, "Failed to set up resampler");
         #else
             // FFmpeg 4.x (libavcodec 58): Legacy channel_layout/channels fields
             int64_t input_ch_layout = _codec_ctx->channel_layout;
             if (input_ch_layout == 0) {
                 // channel_layout not set, derive from channel count
-                input_ch_layout = _codec_ctx->channels > 1
-                    ? AV_CH_LAYOUT_STEREO
-                    : AV_CH_LAYOUT_MONO;
+                input_ch_layout = av_get_default_channel_layout(_codec_ctx->channels);
             }
-        #endif
 
-        _resampler = swr_alloc_set_opts(
-            nullptr,
-            AV_CH_LAYOUT_MONO,           // output: mono
-            AV_SAMPLE_FMT_FLT,           // output: float32
-            _output_sample_rate,          // output: target sample rate
-            input_ch_layout,              // input: auto-detected channel layout
-            _codec_ctx->sample_fmt,       // input: original format
-            _codec_ctx->sample_rate,      // input: original sample rate
-            0,
-            nullptr
-        );
+            _resampler = swr_alloc_set_opts(
+                nullptr,
+                AV_CH_LAYOUT_MONO,           // output: mono
+                AV_SAMPLE_FMT_FLT,           // output: float32
+                _output_sample_rate,          // output: target sample rate
+                input_ch_layout,              // input: auto-detected channel layout
+                _codec_ctx->sample_fmt,       // input: original format
+                _codec_ctx->sample_rate,      // input: original sample rate
+                0,
+                nullptr
+            );
+        #endif
 
         if (!_resampler) {
             throw std::runtime_error("Failed to allocate resampler");
-- 
2.43.0


From 30c68aa8f016d6b7a4017777fdfcad92cb7062f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 51/84] fix: SourceAudioFileBlock hung when repeating a file
 that is empty or cannot be rewound

---
 desktop_blocks/sources/source_audio_file.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 25ff476..0f64369 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -122,6 +122,7 @@ private:
     int _audio_stream_idx;
     bool _eof_reached;
     bool _eof_reported = false;
+    bool _got_samples = false;  // ... since the file was opened or rewound
     std::vector<T> _pending;    // Resampled samples that are still to be handed out
     size_t _pending_pos = 0;
 
@@ -150,12 +151,18 @@ private:
     bool _decode_next() {
         int ret = avcodec_receive_frame(_codec_ctx, _frame);
         if (ret == 0) {
+            _got_samples |= _frame->nb_samples > 0;
             return _resample(_frame);
         }
         if (ret == AVERROR_EOF) {
             // Everything in the file has been decoded
             if (_repeat) {
-                av_seek_frame(_format_ctx, _audio_stream_idx, 0, AVSEEK_FLAG_BACKWARD);
+                // A file without samples, or one that cannot be rewound, must not be tried for ever
+                if (!_got_samples ||
+                    av_seek_frame(_format_ctx, _audio_stream_idx, 0, AVSEEK_FLAG_BACKWARD) < 0) {
+                    return false;
+                }
+                _got_samples = false;
                 avcodec_flush_buffers(_codec_ctx);
                 return true;
             }
-- 
2.43.0


From e0135b26f2cc94f9b8175ffdf3b440574d8dfc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 52/84] fix: SourceAudioFileBlock leaked the file and decoder
 when its constructor threw

---
 desktop_blocks/sources/source_audio_file.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 0f64369..774a1c4 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -57,7 +57,12 @@ struct SourceAudioFileBlock : public cler::BlockBase {
           _audio_stream_idx(-1),
           _eof_reached(false)
     {
-        _open_audio_file();
+        try {
+            _open_audio_file();
+        } catch (...) {
+            _close_audio_file();
+            throw;
+        }
     }
 
     ~SourceAudioFileBlock() {
-- 
2.43.0


From 896eb8071d8901592931899a4006526dac5faa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:39 +0000
Subject: [PATCH 53/84] fix: SinkAudioBlock never released PortAudio

---
 desktop_blocks/sinks/sink_audio.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/desktop_blocks/sinks/sink_audio.hpp b/desktop_blocks/sinks/sink_audio.hpp
index ebe2def..19baab2 100644
--- a/desktop_blocks/sinks/sink_audio.hpp
+++ b/desktop_blocks/sinks/sink_audio.hpp
@@ -53,20 +53,26 @@ struct SinkAudioBlock : public cler::BlockBase {
         PaError err = Pa_Initialize();
         pa_check(err);
 
-        // Validate device index if specified
-        if (device_index != paNoDevice) {
-            int num_devices = Pa_GetDeviceCount();
-            if (num_devices < 0 || device_index >= num_devices) {
-                throw std::invalid_argument("Invalid device index: " + std::to_string(device_index));
+        try {
+            // Validate device index if specified
+            if (device_index != paNoDevice) {
+                int num_devices = Pa_GetDeviceCount();
+                if (num_devices < 0 || device_index >= num_devices) {
+                    throw std::invalid_argument("Invalid device index: " + std::to_string(device_index));
+                }
             }
-        }
 
-        // Open the audio stream
-        _open_stream();
+            // Open the audio stream
+            _open_stream();
+        } catch (...) {
+            Pa_Terminate();
+            throw;
+        }
     }
 
     ~SinkAudioBlock() {
         _close_stream();
+        Pa_Terminate();
     }
 
     cler::Result<cler::Empty, cler::Error> procedure() {
@@ -105,6 +111,7 @@ struct SinkAudioBlock : public cler::BlockBase {
 
         int num_devices = Pa_GetDeviceCount();
         if (num_devices < 0) {
+            Pa_Terminate();
             throw std::runtime_error("Pa_GetDeviceCount() failed");
         }
 
@@ -119,6 +126,7 @@ struct SinkAudioBlock : public cler::BlockBase {
                        info->defaultHighOutputLatency * 1000.0);
             }
         }
+        Pa_Terminate();
     }
 
 private:
-- 
2.43.0


From 241dacab723a986ec341d5233d111d94e4540ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:54 +0000
Subject: [PATCH 54/84] fix: SinkAudioBlock dereferenced a null device info

---
 desktop_blocks/sinks/sink_audio.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/sinks/sink_audio.hpp b/desktop_blocks/sinks/sink_audio.hpp
index 19baab2..debb8b0 100644
--- a/desktop_blocks/sinks/sink_audio.hpp
+++ b/desktop_blocks/sinks/sink_audio.hpp
@@ -143,9 +143,14 @@ private:
             throw std::runtime_error("No default output device found");
         }
 
+        const PaDeviceInfo* device_info = Pa_GetDeviceInfo(output_params.device);
+        if (!device_info) {
+            throw std::runtime_error("No information on output device " + std::to_string(output_params.device));
+        }
+
         output_params.channelCount = 1;  // Mono
         output_params.sampleFormat = paFloat32;
-        output_params.suggestedLatency = Pa_GetDeviceInfo(output_params.device)->defaultHighOutputLatency;
+        output_params.suggestedLatency = device_info->defaultHighOutputLatency;
         output_params.hostApiSpecificStreamInfo = nullptr;
 
         PaError err = Pa_OpenStream(
-- 
2.43.0


From 7ec0a7d472df871b13a848d5d3ea354126e53346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:28 +0000
Subject: [PATCH 55/84] fix: SourceAudioFileBlock kept the flowgraph from
 stopping while a file yields hardly any samples

---
 desktop_blocks/sources/source_audio_file.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 774a1c4..9418e3d 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -82,13 +82,16 @@ struct SourceAudioFileBlock : public cler::BlockBase {
         size_t samples_written = 0;
         bool failed = false;
 
+        // Bounded work per call, so that the flowgraph can stop however little the file yields
+        int decode_steps = 0;
+
         while (samples_written < write_size) {
             if (_pending_pos < _pending.size()) {
                 size_t n = std::min(write_size - samples_written, _pending.size() - _pending_pos);
                 std::memcpy(write_ptr + samples_written, _pending.data() + _pending_pos, n * sizeof(T));
                 _pending_pos += n;
                 samples_written += n;
-            } else if (_eof_reached) {
+            } else if (_eof_reached || decode_steps++ == MAX_DECODE_STEPS) {
                 break;
             } else if (!_decode_next()) {
                 failed = true;
@@ -115,6 +118,8 @@ struct SourceAudioFileBlock : public cler::BlockBase {
     }
 
 private:
+    static constexpr int MAX_DECODE_STEPS = 4096;
+
     const char* _filename;
     uint32_t _output_sample_rate;
     bool _repeat;
-- 
2.43.0


From 0ceb996d0c68d619abb13f8f7212ffbe4092fc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 56/84] fix: the SoapySDR source and sink could not be used in
 one program

---
 desktop_blocks/misc/soapysdr_common.hpp    | 31 ++++++++++++++++++++++
 desktop_blocks/sinks/sink_soapysdr.hpp     | 25 +----------------
 desktop_blocks/sources/source_soapysdr.hpp | 25 +----------------
 3 files changed, 33 insertions(+), 48 deletions(-)
 create mode 100644 desktop_blocks/misc/soapysdr_common.hpp

diff --git a/desktop_blocks/misc/soapysdr_common.hpp b/desktop_blocks/misc/soapysdr_common.hpp
new file mode 100644
index 0000000..7427862
--- /dev/null
+++ b/desktop_blocks/misc/soapysdr_common.hpp
@@ -0,0 +1,31 @@
+#pragma once
+
+#include <SoapySDR/Formats.hpp>
+#include <complex>
+#include <cstdint>
+#include <string>
+#include <type_traits>
+
+// Helper to map C++ types to SoapySDR format strings
+template<typename T>
+inline std::string get_soapy_format() {
+    if constexpr (std::is_same_v<T, std::complex<float>>) {
+        return SOAPY_SDR_CF32;
+    } else if constexpr (std::is_same_v<T, std::complex<int16_t>>) {
+        return SOAPY_SDR_CS16;
+    } else if constexpr (std::is_same_v<T, std::complex<int8_t>>) {
+        return SOAPY_SDR_CS8;
+    } else if constexpr (std::is_same_v<T, std::complex<uint8_t>>) {
+        return SOAPY_SDR_CU8;
+    } else if constexpr (std::is_same_v<T, int32_t>) {
+        return SOAPY_SDR_S32;
+    } else if constexpr (std::is_same_v<T, int16_t>) {
+        return SOAPY_SDR_S16;
+    } else if constexpr (std::is_same_v<T, uint8_t>) {
+        return SOAPY_SDR_U8;
+    } else if constexpr (std::is_same_v<T, float>) {
+        return SOAPY_SDR_F32;
+    } else {
+        static_assert(!std::is_same_v<T, T>, "Unsupported type for SoapySDR");
+    }
+}
diff --git a/desktop_blocks/sinks/sink_soapysdr.hpp b/desktop_blocks/sinks/sink_soapysdr.hpp
index 2ea09b3..3731f39 100644
--- a/desktop_blocks/sinks/sink_soapysdr.hpp
+++ b/desktop_blocks/sinks/sink_soapysdr.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "cler.hpp"
+#include "desktop_blocks/misc/soapysdr_common.hpp"
 #include <SoapySDR/Device.hpp>
 #include <SoapySDR/Formats.hpp>
 #include <SoapySDR/Errors.hpp>
@@ -11,30 +12,6 @@
 #include <sstream>
 #include <algorithm>
 
-// Helper to map C++ types to SoapySDR format strings
-template<typename T>
-inline std::string get_soapy_format() {
-    if constexpr (std::is_same_v<T, std::complex<float>>) {
-        return SOAPY_SDR_CF32;
-    } else if constexpr (std::is_same_v<T, std::complex<int16_t>>) {
-        return SOAPY_SDR_CS16;
-    } else if constexpr (std::is_same_v<T, std::complex<int8_t>>) {
-        return SOAPY_SDR_CS8;
-    } else if constexpr (std::is_same_v<T, std::complex<uint8_t>>) {
-        return SOAPY_SDR_CU8;
-    } else if constexpr (std::is_same_v<T, int32_t>) {
-        return SOAPY_SDR_S32;
-    } else if constexpr (std::is_same_v<T, int16_t>) {
-        return SOAPY_SDR_S16;
-    } else if constexpr (std::is_same_v<T, uint8_t>) {
-        return SOAPY_SDR_U8;
-    } else if constexpr (std::is_same_v<T, float>) {
-        return SOAPY_SDR_F32;
-    } else {
-        static_assert(!std::is_same_v<T, T>, "Unsupported type for SoapySDR");
-    }
-}
-
 template<typename T>
 struct SinkSoapySDRBlock : public cler::BlockBase {
     
diff --git a/desktop_blocks/sources/source_soapysdr.hpp b/desktop_blocks/sources/source_soapysdr.hpp
index 9617328..270e842 100644
--- a/desktop_blocks/sources/source_soapysdr.hpp
+++ b/desktop_blocks/sources/source_soapysdr.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "cler.hpp"
+#include "desktop_blocks/misc/soapysdr_common.hpp"
 #include <SoapySDR/Device.hpp>
 #include <SoapySDR/Formats.hpp>
 #include <SoapySDR/Errors.hpp>
@@ -11,30 +12,6 @@
 #include <sstream>
 #include <algorithm>
 
-// Helper to map C++ types to SoapySDR format strings
-template<typename T>
-inline std::string get_soapy_format() {
-    if constexpr (std::is_same_v<T, std::complex<float>>) {
-        return SOAPY_SDR_CF32;
-    } else if constexpr (std::is_same_v<T, std::complex<int16_t>>) {
-        return SOAPY_SDR_CS16;
-    } else if constexpr (std::is_same_v<T, std::complex<int8_t>>) {
-        return SOAPY_SDR_CS8;
-    } else if constexpr (std::is_same_v<T, std::complex<uint8_t>>) {
-        return SOAPY_SDR_CU8;
-    } else if constexpr (std::is_same_v<T, int32_t>) {
-        return SOAPY_SDR_S32;
-    } else if constexpr (std::is_same_v<T, int16_t>) {
-        return SOAPY_SDR_S16;
-    } else if constexpr (std::is_same_v<T, uint8_t>) {
-        return SOAPY_SDR_U8;
-    } else if constexpr (std::is_same_v<T, float>) {
-        return SOAPY_SDR_F32;
-    } else {
-        static_assert(!std::is_same_v<T, T>, "Unsupported type for SoapySDR");
-    }
-}
-
 template<typename T>
 struct SourceSoapySDRBlock : public cler::BlockBase {
     
-- 
2.43.0


From 182e984e61a213e906dc874adb7e294245350adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 57/84] fix: SourceSoapySDRBlock stopped the flowgraph when a
 read gave no samples yet

---
 desktop_blocks/sources/source_soapysdr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/desktop_blocks/sources/source_soapysdr.hpp b/desktop_blocks/sources/source_soapysdr.hpp
index 270e842..f98fe7d 100644
--- a/desktop_blocks/sources/source_soapysdr.hpp
+++ b/desktop_blocks/sources/source_soapysdr.hpp
@@ -164,7 +164,7 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
         if (ret > 0) {
             out->commit_write(ret);
             return cler::Empty{};
-        } else if (ret == SOAPY_SDR_TIMEOUT) {
+        } else if (ret == SOAPY_SDR_TIMEOUT || ret == 0) {
             return cler::Error::NotEnoughSamples;
         } else if (ret == SOAPY_SDR_OVERFLOW) {
             overflow_count++;
-- 
2.43.0


From 02d406fd3a05c423f2764e8a6f1e552d651c394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 58/84] fix: SoapySDR blocks leaked the device when it threw
 during set-up

---
 desktop_blocks/sinks/sink_soapysdr.hpp     | 30 +++++++++++-----------
 desktop_blocks/sources/source_soapysdr.hpp | 28 ++++++++++----------
 2 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/desktop_blocks/sinks/sink_soapysdr.hpp b/desktop_blocks/sinks/sink_soapysdr.hpp
index 3731f39..fad39ae 100644
--- a/desktop_blocks/sinks/sink_soapysdr.hpp
+++ b/desktop_blocks/sinks/sink_soapysdr.hpp
@@ -24,15 +24,8 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
                       double gain = 0.0,
                       size_t channel = 0,
                       size_t channel_size = 0)
-        : BlockBase(name),
-          in(channel_size == 0 ? cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T) : channel_size),
-          device_args(args),
-          center_freq(freq),
-          sample_rate(rate),
-          gain_db(gain),
-          channel_idx(channel),
-          device(nullptr),
-          stream(nullptr) {
+        : SinkSoapySDRBlock(Members{}, name, args, freq, rate, gain, channel, channel_size) {
+        // From here on the destructor releases stream and device, also if something below throws
         
         // Validate buffer size for DBF
         if (channel_size > 0 && channel_size * sizeof(T) < cler::DOUBLY_MAPPED_MIN_SIZE) {
@@ -61,7 +54,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : sample_rates) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MSPS ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setSampleRate(SOAPY_SDR_TX, channel_idx, sample_rate);
@@ -81,7 +73,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : freq_ranges) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MHz ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setFrequency(SOAPY_SDR_TX, channel_idx, center_freq);
@@ -92,7 +83,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             std::stringstream ss;
             ss << "Gain " << gain_db << " dB not supported. Supported range: "
                << gain_range.minimum() << "-" << gain_range.maximum() << " dB";
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         if (device->hasGainMode(SOAPY_SDR_TX, channel_idx)) {
@@ -111,7 +101,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
         
         stream = device->setupStream(SOAPY_SDR_TX, format, channels);
         if (!stream) {
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SinkSoapySDRBlock: Failed to setup TX stream");
         }
         
@@ -122,8 +111,6 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
         // Activate stream
         int ret = device->activateStream(stream);
         if (ret != 0) {
-            device->closeStream(stream);
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SinkSoapySDRBlock: Failed to activate stream: " + std::string(SoapySDR::errToStr(ret)));
         }
         
@@ -281,6 +268,19 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
     }
     
 private:
+    struct Members {};
+    SinkSoapySDRBlock(Members, const char* name, const std::string& args, double freq, double rate, double gain, size_t channel, size_t channel_size)
+        : BlockBase(name),
+          in(channel_size == 0 ? cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T) : channel_size),
+          device_args(args),
+          center_freq(freq),
+          sample_rate(rate),
+          gain_db(gain),
+          channel_idx(channel),
+          device(nullptr),
+          stream(nullptr) {
+    }
+
     // Configuration
     std::string device_args;
     double center_freq;
diff --git a/desktop_blocks/sources/source_soapysdr.hpp b/desktop_blocks/sources/source_soapysdr.hpp
index f98fe7d..d0a48f2 100644
--- a/desktop_blocks/sources/source_soapysdr.hpp
+++ b/desktop_blocks/sources/source_soapysdr.hpp
@@ -21,14 +21,8 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
                         double rate,
                         double gain = 20.0,
                         size_t channel = 0)
-        : BlockBase(name),
-          device_args(args),
-          center_freq(freq),
-          sample_rate(rate),
-          gain_db(gain),
-          channel_idx(channel),
-          device(nullptr),
-          stream(nullptr) {
+        : SourceSoapySDRBlock(Members{}, name, args, freq, rate, gain, channel) {
+        // From here on the destructor releases stream and device, also if something below throws
         
         // Create device
         device = SoapySDR::Device::make(device_args);
@@ -51,7 +45,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : sample_rates) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MSPS ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setSampleRate(SOAPY_SDR_RX, channel_idx, sample_rate);
@@ -71,7 +64,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             for (const auto& range : freq_ranges) {
                 ss << range.minimum()/1e6 << "-" << range.maximum()/1e6 << " MHz ";
             }
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         device->setFrequency(SOAPY_SDR_RX, channel_idx, center_freq);
@@ -82,7 +74,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
             std::stringstream ss;
             ss << "Gain " << gain_db << " dB not supported. Supported range: "
                << gain_range.minimum() << "-" << gain_range.maximum() << " dB";
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error(ss.str());
         }
         if (device->hasGainMode(SOAPY_SDR_RX, channel_idx)) {
@@ -101,7 +92,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
         
         stream = device->setupStream(SOAPY_SDR_RX, format, channels);
         if (!stream) {
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SourceSoapySDRBlock: Failed to setup RX stream");
         }
         
@@ -111,8 +101,6 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
         // Activate stream
         int ret = device->activateStream(stream);
         if (ret != 0) {
-            device->closeStream(stream);
-            SoapySDR::Device::unmake(device);
             throw std::runtime_error("SourceSoapySDRBlock: Failed to activate stream: " + std::string(SoapySDR::errToStr(ret)));
         }
         
@@ -266,6 +254,18 @@ struct SourceSoapySDRBlock : public cler::BlockBase {
     }
     
 private:
+    struct Members {};
+    SourceSoapySDRBlock(Members, const char* name, const std::string& args, double freq, double rate, double gain, size_t channel)
+        : BlockBase(name),
+          device_args(args),
+          center_freq(freq),
+          sample_rate(rate),
+          gain_db(gain),
+          channel_idx(channel),
+          device(nullptr),
+          stream(nullptr) {
+    }
+
     // Configuration
     std::string device_args;
     double center_freq;
-- 
2.43.0


From 41e0223a69af2226eb819a773ebdb57722465f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 59/84] fix: HackRF blocks left the library initialized when
 their constructor threw

---
 desktop_blocks/sinks/sink_hackrf.hpp     | 6 ++++++
 desktop_blocks/sources/source_hackrf.hpp | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/desktop_blocks/sinks/sink_hackrf.hpp b/desktop_blocks/sinks/sink_hackrf.hpp
index c11893e..d22510c 100644
--- a/desktop_blocks/sinks/sink_hackrf.hpp
+++ b/desktop_blocks/sinks/sink_hackrf.hpp
@@ -44,6 +44,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
 
         // Open device
         if (hackrf_open(&_dev) != HACKRF_SUCCESS) {
+            hackrf_exit();
             throw std::runtime_error("Failed to open HackRF device.");
         }
 
@@ -51,6 +52,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
         if (hackrf_set_freq(_dev, freq_hz) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set TX frequency.");
         }
 
@@ -58,6 +60,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
         if (hackrf_set_sample_rate(_dev, samp_rate_hz) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set TX sample rate.");
         }
 
@@ -65,6 +68,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
         if (hackrf_set_txvga_gain(_dev, txvga_gain_db) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set TXVGA gain.");
         }
 
@@ -72,6 +76,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
         if (hackrf_set_amp_enable(_dev, amp_enable ? 1 : 0) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set amp enable.");
         }
 
@@ -79,6 +84,7 @@ struct SinkHackRFBlock : public cler::BlockBase {
         if (hackrf_start_tx(_dev, tx_callback, this) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to start TX streaming.");
         }
 
diff --git a/desktop_blocks/sources/source_hackrf.hpp b/desktop_blocks/sources/source_hackrf.hpp
index f23f963..9b5a1ed 100644
--- a/desktop_blocks/sources/source_hackrf.hpp
+++ b/desktop_blocks/sources/source_hackrf.hpp
@@ -43,6 +43,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
 
         // Open device
         if (hackrf_open(&_dev) != HACKRF_SUCCESS) {
+            hackrf_exit();
             throw std::runtime_error("Failed to open HackRF device.");
         }
 
@@ -50,6 +51,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_set_freq(_dev, freq_hz) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set frequency.");
         }
 
@@ -57,6 +59,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_set_sample_rate(_dev, samp_rate_hz) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set sample rate.");
         }
 
@@ -64,6 +67,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_set_lna_gain(_dev, lna_gain_db) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set LNA gain.");
         }
 
@@ -71,6 +75,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_set_vga_gain(_dev, vga_gain_db) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set VGA gain.");
         }
 
@@ -78,6 +83,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_set_amp_enable(_dev, amp_enable ? 1 : 0) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to set amp enable.");
         }
 
@@ -85,6 +91,7 @@ struct SourceHackRFBlock : public cler::BlockBase {
         if (hackrf_start_rx(_dev, rx_callback, this) != HACKRF_SUCCESS) {
             hackrf_close(_dev);
             _dev = nullptr;
+            hackrf_exit();
             throw std::runtime_error("Failed to start RX streaming.");
         }
 
-- 
2.43.0


From 05a322f68de4a55cc150d18a7bfa15cfc7c0e0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 60/84] fix: SourceUHDBlock left the device streaming

---
 desktop_blocks/sources/source_uhd.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/desktop_blocks/sources/source_uhd.hpp b/desktop_blocks/sources/source_uhd.hpp
index 7ef4278..4d88e07 100644
--- a/desktop_blocks/sources/source_uhd.hpp
+++ b/desktop_blocks/sources/source_uhd.hpp
@@ -75,6 +75,11 @@ struct SourceUHDBlock : public cler::BlockBase {
     }
 
     ~SourceUHDBlock() {
+        try {
+            rx_stream->issue_stream_cmd(uhd::stream_cmd_t(uhd::stream_cmd_t::STREAM_MODE_STOP_CONTINUOUS));
+        } catch (const std::exception& e) {
+            std::cerr << "SourceUHDBlock: Failed to stop streaming: " << e.what() << std::endl;
+        }
         if (overflow_count > 0) {
             std::cout << "SourceUHDBlock: Total overflows: " << overflow_count << std::endl;
         }
-- 
2.43.0


From 5fc16d7f922423b877e6e446eb434005dc7d1ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 61/84] fix: SourceUHDBlock overlooked overflows and errors
 that come without samples

---
 desktop_blocks/sources/source_uhd.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/desktop_blocks/sources/source_uhd.hpp b/desktop_blocks/sources/source_uhd.hpp
index 4d88e07..cbd8a7d 100644
--- a/desktop_blocks/sources/source_uhd.hpp
+++ b/desktop_blocks/sources/source_uhd.hpp
@@ -151,9 +151,6 @@ struct SourceUHDBlock : public cler::BlockBase {
                     return;
                 }
                 size_t num_rx = rx_stream->recv(write_ptr, write_size, md, 0.1);
-                if (num_rx == 0) {
-                    return;
-                }
                 if (md.error_code == uhd::rx_metadata_t::ERROR_CODE_OVERFLOW) {
                     overflow_count++;
                 } else if (md.error_code != uhd::rx_metadata_t::ERROR_CODE_NONE &&
@@ -163,7 +160,9 @@ struct SourceUHDBlock : public cler::BlockBase {
                     return;
                 }
 
-                out->commit_write(num_rx);
+                if (num_rx > 0) {
+                    out->commit_write(num_rx);
+                }
             }(outs), ...);
         }(std::make_index_sequence<num_outs>{});
 
-- 
2.43.0


From 87ce89cb2861bf23f86fe951f08d3140bdf34e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 62/84] fix: SourceUHDBlock could not receive more than one
 channel

---
 desktop_blocks/sources/source_uhd.hpp | 62 ++++++++++++---------------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/desktop_blocks/sources/source_uhd.hpp b/desktop_blocks/sources/source_uhd.hpp
index cbd8a7d..2a4b5cb 100644
--- a/desktop_blocks/sources/source_uhd.hpp
+++ b/desktop_blocks/sources/source_uhd.hpp
@@ -14,6 +14,8 @@
     #endif
 #endif
 
+#include <algorithm>
+#include <limits>
 #include <vector>
 #include <string>
 #include <iostream>
@@ -35,6 +37,7 @@ struct SourceUHDBlock : public cler::BlockBase {
           device_address(dvc_adrs),
           gain_db(gain),
           _num_channels(num_channels),
+          _write_ptrs(num_channels),
           wire_format(otw_format),
           _configuring(false) {
 
@@ -137,44 +140,34 @@ struct SourceUHDBlock : public cler::BlockBase {
             return cler::Empty{};  // Skip this iteration
         }
 
-        uhd::rx_metadata_t md;
-        cler::Error result_error = cler::Error::OK;
-        [&]<std::size_t... Is>(std::index_sequence<Is...>) {
-            ([&](OChannels* out) {
-
-                if (result_error != cler::Error::OK) {
-                    return;
-                }
-                auto [write_ptr, write_size] = out->write_dbf();
-                if (!write_ptr || write_size == 0) {
-                    result_error = cler::Error::NotEnoughSpace;
-                    return;
-                }
-                size_t num_rx = rx_stream->recv(write_ptr, write_size, md, 0.1);
-                if (md.error_code == uhd::rx_metadata_t::ERROR_CODE_OVERFLOW) {
-                    overflow_count++;
-                } else if (md.error_code != uhd::rx_metadata_t::ERROR_CODE_NONE &&
-                            md.error_code != uhd::rx_metadata_t::ERROR_CODE_TIMEOUT) {
-                    std::cerr << "SourceUHDBlock: " << md.strerror() << std::endl;
-                    result_error = cler::Error::TERM_ProcedureError;
-                    return;
-                }
-
-                if (num_rx > 0) {
-                    out->commit_write(num_rx);
-                }
-            }(outs), ...);
-        }(std::make_index_sequence<num_outs>{});
-
-
-
-        if (result_error != cler::Error::OK) {
-            return result_error;
+        // One read fills all channels, each with the same number of samples
+        size_t space = std::numeric_limits<size_t>::max();
+        size_t idx = 0;
+        ([&](OChannels* out) {
+            auto [write_ptr, write_size] = out->write_dbf();
+            _write_ptrs[idx++] = write_ptr;
+            space = std::min(space, write_ptr ? write_size : 0);
+        }(outs), ...);
+        if (space == 0) {
+            return cler::Error::NotEnoughSpace;
         }
-        return cler::Empty{};
 
+        uhd::rx_metadata_t md;
+        size_t num_rx = rx_stream->recv(_write_ptrs, space, md, 0.1);
+        if (md.error_code == uhd::rx_metadata_t::ERROR_CODE_OVERFLOW) {
+            overflow_count++;
+        } else if (md.error_code != uhd::rx_metadata_t::ERROR_CODE_NONE &&
+                    md.error_code != uhd::rx_metadata_t::ERROR_CODE_TIMEOUT) {
+            std::cerr << "SourceUHDBlock: " << md.strerror() << std::endl;
+            return cler::Error::TERM_ProcedureError;
+        }
 
+        if (num_rx > 0) {
+            (outs->commit_write(num_rx), ...);
+        }
+        return cler::Empty{};
     }
+
     size_t get_overflow_count() const { return overflow_count; }
 
 protected:
@@ -187,6 +180,7 @@ private:
     std::string device_address;
     double gain_db;
     size_t _num_channels;
+    std::vector<void*> _write_ptrs;  // Where each channel is read to
     std::string wire_format;
     std::atomic<bool> _configuring;
     size_t overflow_count = 0;
-- 
2.43.0


From c1e1ea4eacf28b10c796ed7bdd275cde7163e3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 63/84] fix: sink_uhd.hpp did not include what it uses

It calls std::this_thread::sleep_for without <thread>, so a program that
includes only this header did not compile.
---
 desktop_blocks/sinks/sink_uhd.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/desktop_blocks/sinks/sink_uhd.hpp b/desktop_blocks/sinks/sink_uhd.hpp
index 028d846..9f9a936 100644
--- a/desktop_blocks/sinks/sink_uhd.hpp
+++ b/desktop_blocks/sinks/sink_uhd.hpp
@@ -15,6 +15,9 @@
 #endif
 #include <complex>
 
+#include <atomic>
+#include <chrono>
+#include <thread>
 #include <vector>
 #include <string>
 #include <iostream>
-- 
2.43.0


From dd782971fc3a031498ef7aa52afd2acf59147167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 64/84] fix: SinkUHDBlock dereferenced a null configuration

initial_config defaults to nullptr, but a first configuration loop used it
unchecked. The loop below configures every channel, with or without one.
---
 desktop_blocks/sinks/sink_uhd.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/desktop_blocks/sinks/sink_uhd.hpp b/desktop_blocks/sinks/sink_uhd.hpp
index 9f9a936..5210d10 100644
--- a/desktop_blocks/sinks/sink_uhd.hpp
+++ b/desktop_blocks/sinks/sink_uhd.hpp
@@ -104,10 +104,6 @@ struct SinkUHDBlock : public cler::BlockBase {
                 throw std::runtime_error("SinkUHDBlock: Failed to setup TX stream");
             }
 
-            for (size_t channel = 0; channel < _num_channels; ++channel) {
-                configure(*initial_config, channel);
-            }
-
             // Allocate UHD buffer pointer array (vector auto-manages)
             _uhd_buffs.resize(_num_channels);
             _read_ptrs.resize(_num_channels);
-- 
2.43.0


From 664f50e9e632be3a5366b08edca5415c50522cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 65/84] fix: SinkUHDBlock could not transmit on more than one
 channel

Each channel's samples were passed in a send() of their own, although the
streamer has all channels and takes one buffer for each, and all that was
sent was taken from the first input. Send the channels together and take
the samples from every input.
---
 desktop_blocks/sinks/sink_uhd.hpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/desktop_blocks/sinks/sink_uhd.hpp b/desktop_blocks/sinks/sink_uhd.hpp
index 5210d10..011225b 100644
--- a/desktop_blocks/sinks/sink_uhd.hpp
+++ b/desktop_blocks/sinks/sink_uhd.hpp
@@ -15,6 +15,7 @@
 #endif
 #include <complex>
 
+#include <algorithm>
 #include <atomic>
 #include <chrono>
 #include <thread>
@@ -198,6 +199,8 @@ struct SinkUHDBlock : public cler::BlockBase {
         if (_configuring.load(std::memory_order_acquire)) {
             return cler::Empty{};  // Skip this iteration
         }
+        // All channels go out together: one send() takes a buffer per channel of the stream
+        size_t to_send = 0;
         for (size_t i = 0; i < _num_channels; ++i) {
             auto [ptr, size] = in[i].read_dbf();
             _read_ptrs[i] = ptr;
@@ -206,16 +209,21 @@ struct SinkUHDBlock : public cler::BlockBase {
             if (_read_sizes[i] < (cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T)) / 4) {
                 return cler::Error::NotEnoughSamples;
             }
-            uhd::tx_metadata_t md;
-            md.start_of_burst = false;
-            md.end_of_burst = false;
-            md.has_time_spec = false;               
-
-            size_t sent = _tx_stream->send(_read_ptrs[i],
-                            _read_sizes[i],
-                            md,
-                            0.1);  // 100ms timeout
-            in->commit_read(sent);
+            _uhd_buffs[i] = const_cast<T*>(_read_ptrs[i]);
+            to_send = (i == 0) ? size : std::min(to_send, size);
+        }
+
+        uhd::tx_metadata_t md;
+        md.start_of_burst = false;
+        md.end_of_burst = false;
+        md.has_time_spec = false;
+
+        size_t sent = _tx_stream->send(_uhd_buffs,
+                        to_send,
+                        md,
+                        0.1);  // 100ms timeout
+        for (size_t i = 0; i < _num_channels; ++i) {
+            in[i].commit_read(sent);
         }
 
         handle_async_events();
-- 
2.43.0


From fa15bde2a4f23c5d5cba53f8b76dc2da8bd0913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 66/84] fix: SinkSoapySDRBlock dropped samples on an underflow

writeStream() returning SOAPY_SDR_UNDERFLOW accepted no samples, but the
whole piece was counted as sent.
---
 desktop_blocks/sinks/sink_soapysdr.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/sinks/sink_soapysdr.hpp b/desktop_blocks/sinks/sink_soapysdr.hpp
index fad39ae..97d0667 100644
--- a/desktop_blocks/sinks/sink_soapysdr.hpp
+++ b/desktop_blocks/sinks/sink_soapysdr.hpp
@@ -175,8 +175,9 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
                 if (underflow_count % 100 == 0) {
                     std::cerr << "SinkSoapySDRBlock: Underflow count: " << underflow_count << std::endl;
                 }
-                // Continue despite underflow
-                samples_sent += to_send;
+                // The device took nothing with this code: these samples go out with the next call
+                in.commit_read(samples_sent);
+                return cler::Empty{};
             } else if (ret < 0) {
                 std::cerr << "SinkSoapySDRBlock: writeStream error: " << SoapySDR::errToStr(ret) << std::endl;
                 in.commit_read(samples_sent);
-- 
2.43.0


From 221a08611cd58b697f30e05cd47e088f4246bdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 67/84] fix: SinkSoapySDRBlock did not return while the device
 accepts nothing

A device that keeps taking zero samples held procedure() in its loop for
ever, so the flowgraph could not stop.
---
 desktop_blocks/sinks/sink_soapysdr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/desktop_blocks/sinks/sink_soapysdr.hpp b/desktop_blocks/sinks/sink_soapysdr.hpp
index 97d0667..15013fb 100644
--- a/desktop_blocks/sinks/sink_soapysdr.hpp
+++ b/desktop_blocks/sinks/sink_soapysdr.hpp
@@ -166,8 +166,8 @@ struct SinkSoapySDRBlock : public cler::BlockBase {
             
             int ret = device->writeStream(stream, buffs, to_send, flags, time_ns, timeout_us);
             
-            if (ret == SOAPY_SDR_TIMEOUT) {
-                // Timeout - commit what we've sent and return
+            if (ret == SOAPY_SDR_TIMEOUT || ret == 0) {
+                // Timeout, or nothing accepted - commit what we've sent and return
                 in.commit_read(samples_sent);
                 return cler::Error::NotEnoughSpace;
             } else if (ret == SOAPY_SDR_UNDERFLOW) {
-- 
2.43.0


From d2273c677061465a4cff04da34d49b54a879ece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 68/84] fix: the map bent coastlines that leave the view to its
 border

Segments with an end outside the canvas were drawn to the nearest point of the
border, so coasts crossing the view were drawn where there is none. Only cut
them off there.
---
 desktop_blocks/adsb/adsb_aggregate.hpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/desktop_blocks/adsb/adsb_aggregate.hpp b/desktop_blocks/adsb/adsb_aggregate.hpp
index a69420b..014adad 100644
--- a/desktop_blocks/adsb/adsb_aggregate.hpp
+++ b/desktop_blocks/adsb/adsb_aggregate.hpp
@@ -278,7 +278,8 @@ private:
     static constexpr uint32_t MAX_CPR_PAIR_AGE = 10; // seconds
     mode_s_msg _msg_buffer[MESSAGE_BUFFER_SIZE];
 
-    ImVec2 lat_lon_to_screen(float lat, float lon, ImVec2 canvas_pos, ImVec2 canvas_size) {
+    // Where a place is on the screen, which may be outside the canvas
+    ImVec2 project(float lat, float lon, ImVec2 canvas_pos, ImVec2 canvas_size) {
         // Map extent in degrees
         float lat_span = DEFAULT_LAT_SPAN / _map_zoom;
         float lon_span = lat_span * (canvas_size.x / canvas_size.y);
@@ -290,10 +291,6 @@ private:
         float x_norm = (lon - lon_min) / lon_span;
         float y_norm = (lat - lat_min) / lat_span;
 
-        // Clamp to canvas
-        x_norm = std::max(0.0f, std::min(1.0f, x_norm));
-        y_norm = std::max(0.0f, std::min(1.0f, y_norm));
-
         // Convert to screen coordinates (lat increases downward on screen)
         ImVec2 screen;
         screen.x = canvas_pos.x + x_norm * canvas_size.x;
@@ -302,6 +299,16 @@ private:
         return screen;
     }
 
+    ImVec2 lat_lon_to_screen(float lat, float lon, ImVec2 canvas_pos, ImVec2 canvas_size) {
+        ImVec2 screen = project(lat, lon, canvas_pos, canvas_size);
+
+        // Clamp to canvas
+        screen.x = std::max(canvas_pos.x, std::min(canvas_pos.x + canvas_size.x, screen.x));
+        screen.y = std::max(canvas_pos.y, std::min(canvas_pos.y + canvas_size.y, screen.y));
+
+        return screen;
+    }
+
     void draw_grid(ImDrawList* draw_list, ImVec2 canvas_pos, ImVec2 canvas_size) {
         float lat_span = DEFAULT_LAT_SPAN / _map_zoom;
         float lon_span = lat_span * (canvas_size.x / canvas_size.y);
@@ -332,14 +339,17 @@ private:
 
         ImU32 coastline_color = IM_COL32(100, 200, 100, 180);
 
+        // Segments that leave the canvas are cut off at its border, not bent to it
+        draw_list->PushClipRect(canvas_pos, ImVec2(canvas_pos.x + canvas_size.x, canvas_pos.y + canvas_size.y), true);
+
         // Draw each polyline
         for (const auto& polyline : _coastline_data.polylines) {
             if (polyline.size() < 2) continue;
 
             // Convert coordinates and draw line segments
             for (size_t i = 0; i < polyline.size() - 1; ++i) {
-                ImVec2 p1 = lat_lon_to_screen(polyline[i].first, polyline[i].second, canvas_pos, canvas_size);
-                ImVec2 p2 = lat_lon_to_screen(polyline[i + 1].first, polyline[i + 1].second, canvas_pos, canvas_size);
+                ImVec2 p1 = project(polyline[i].first, polyline[i].second, canvas_pos, canvas_size);
+                ImVec2 p2 = project(polyline[i + 1].first, polyline[i + 1].second, canvas_pos, canvas_size);
 
                 // Only draw if both points are roughly on screen (avoid massive lines off-canvas)
                 if ((p1.x >= canvas_pos.x - CANVAS_BOUNDS_MARGIN || p2.x >= canvas_pos.x - CANVAS_BOUNDS_MARGIN) &&
@@ -350,6 +360,8 @@ private:
                 }
             }
         }
+
+        draw_list->PopClipRect();
     }
 
     void draw_aircraft(ImDrawList* draw_list, ImVec2 canvas_pos, ImVec2 canvas_size) {
-- 
2.43.0


From b9ab44c66bf7250541ef780bf8082492f639f4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 69/84] fix: the preview extension ran parts of file names as
 shell commands

The tool was started through a shell with the path between double quotes, so
$(...), backquotes and quotes in a path were interpreted.
---
 tools/mermaid/vscode-extension/src/previewProvider.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/mermaid/vscode-extension/src/previewProvider.ts b/tools/mermaid/vscode-extension/src/previewProvider.ts
index d49a470..daae8fa 100644
--- a/tools/mermaid/vscode-extension/src/previewProvider.ts
+++ b/tools/mermaid/vscode-extension/src/previewProvider.ts
@@ -1,10 +1,10 @@
 import * as vscode from 'vscode';
 import * as path from 'path';
 import * as fs from 'fs';
-import { exec } from 'child_process';
+import { execFile } from 'child_process';
 import { promisify } from 'util';
 
-const execAsync = promisify(exec);
+const execFileAsync = promisify(execFile);
 
 export class PreviewPanel {
     public static currentPreview: { cppFile: string; mdFile: vscode.Uri } | undefined;
@@ -69,8 +69,8 @@ export class PreviewPanel {
         }
 
         try {
-            const { stdout, stderr } = await execAsync(
-                `"${toolPath}" "${filePath}" -o "${outputPath}"`,
+            const { stdout, stderr } = await execFileAsync(
+                toolPath, [filePath, '-o', outputPath],
                 { timeout: 10000 }
             );
 
@@ -116,7 +116,7 @@ export class PreviewPanel {
 
         // 3. Try in PATH
         try {
-            const { stdout } = await execAsync('which cler-mermaid');
+            const { stdout } = await execFileAsync('which', ['cler-mermaid']);
             const pathInSystem = stdout.trim();
             if (pathInSystem && fs.existsSync(pathInSystem)) {
                 return pathInSystem;
-- 
2.43.0


From 51f22c35717d36d6a628d04f58f04af86f4e8324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 70/84] fix: the preview extension showed the diagram of
 another file or an earlier one

When the tool made no diagram, the one left by an earlier run, or by a file of
the same name in another folder, was shown as if it were the file's.
---
 .../vscode-extension/src/previewProvider.ts        | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tools/mermaid/vscode-extension/src/previewProvider.ts b/tools/mermaid/vscode-extension/src/previewProvider.ts
index daae8fa..3b5027f 100644
--- a/tools/mermaid/vscode-extension/src/previewProvider.ts
+++ b/tools/mermaid/vscode-extension/src/previewProvider.ts
@@ -1,6 +1,7 @@
 import * as vscode from 'vscode';
 import * as path from 'path';
 import * as fs from 'fs';
+import { createHash } from 'crypto';
 import { execFile } from 'child_process';
 import { promisify } from 'util';
 
@@ -9,6 +10,7 @@ const execFileAsync = promisify(execFile);
 export class PreviewPanel {
     public static currentPreview: { cppFile: string; mdFile: vscode.Uri } | undefined;
     private static _isUpdating: boolean = false;
+    private static _generated: number = 0;
 
     public static async createOrShow(extensionUri: vscode.Uri, document: vscode.TextDocument) {
         try {
@@ -59,7 +61,9 @@ export class PreviewPanel {
     private static async generateMermaid(filePath: string): Promise<string> {
         // Find cler-mermaid executable
         const toolPath = await PreviewPanel.findToolPath();
-        const tmpDir = path.join(require('os').tmpdir(), 'cler-preview');
+        // A folder for each source file, as files in different folders may have one name
+        const sourceId = createHash('sha256').update(filePath).digest('hex').slice(0, 16);
+        const tmpDir = path.join(require('os').tmpdir(), 'cler-preview', sourceId);
         const baseName = path.basename(filePath, path.extname(filePath));
         const outputPath = path.join(tmpDir, `${baseName}-flowgraph`);
 
@@ -68,17 +72,21 @@ export class PreviewPanel {
             fs.mkdirSync(tmpDir, { recursive: true });
         }
 
+        // The diagram replaces an earlier one only once it is there
+        const newPath = `${outputPath}-new${PreviewPanel._generated++}`;
+
         try {
             const { stdout, stderr } = await execFileAsync(
-                toolPath, [filePath, '-o', outputPath],
+                toolPath, [filePath, '-o', newPath],
                 { timeout: 10000 }
             );
 
             // Check if output file was created
             const mdPath = `${outputPath}.md`;
-            if (!fs.existsSync(mdPath)) {
+            if (!fs.existsSync(`${newPath}.md`)) {
                 throw new Error(`Output file not created: ${mdPath}`);
             }
+            fs.renameSync(`${newPath}.md`, mdPath);
 
             return mdPath;
 
-- 
2.43.0


From 462427b89290d8bdbcf38599955238fa82319e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 71/84] fix: the preview extension dropped updates asked for
 during an update

A file saved while the tool was still running on it kept its earlier diagram.
---
 .../vscode-extension/src/previewProvider.ts     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tools/mermaid/vscode-extension/src/previewProvider.ts b/tools/mermaid/vscode-extension/src/previewProvider.ts
index 3b5027f..54c76bb 100644
--- a/tools/mermaid/vscode-extension/src/previewProvider.ts
+++ b/tools/mermaid/vscode-extension/src/previewProvider.ts
@@ -10,6 +10,7 @@ const execFileAsync = promisify(execFile);
 export class PreviewPanel {
     public static currentPreview: { cppFile: string; mdFile: vscode.Uri } | undefined;
     private static _isUpdating: boolean = false;
+    private static _updateNext: vscode.TextDocument | undefined;
     private static _generated: number = 0;
 
     public static async createOrShow(extensionUri: vscode.Uri, document: vscode.TextDocument) {
@@ -33,15 +34,16 @@ export class PreviewPanel {
     }
 
     public static async update(document: vscode.TextDocument) {
-        if (PreviewPanel._isUpdating) {
-            return; // Prevent concurrent updates
-        }
-
         // Only update if this is the file we're previewing
         if (!PreviewPanel.currentPreview || PreviewPanel.currentPreview.cppFile !== document.fileName) {
             return;
         }
 
+        if (PreviewPanel._isUpdating) {
+            PreviewPanel._updateNext = document; // Prevent concurrent updates
+            return;
+        }
+
         PreviewPanel._isUpdating = true;
 
         try {
@@ -56,6 +58,13 @@ export class PreviewPanel {
         } finally {
             PreviewPanel._isUpdating = false;
         }
+
+        // The file changed while the tool was running
+        const next = PreviewPanel._updateNext;
+        if (next) {
+            PreviewPanel._updateNext = undefined;
+            await PreviewPanel.update(next);
+        }
     }
 
     private static async generateMermaid(filePath: string): Promise<string> {
-- 
2.43.0


From 71029ec0e1ee71329c4c28ca0c9cdb3521c70adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 72/84] fix: a change of another file cancelled the update of
 the preview

---
 tools/mermaid/vscode-extension/src/extension.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/mermaid/vscode-extension/src/extension.ts b/tools/mermaid/vscode-extension/src/extension.ts
index 2c490a8..0c81dba 100644
--- a/tools/mermaid/vscode-extension/src/extension.ts
+++ b/tools/mermaid/vscode-extension/src/extension.ts
@@ -35,7 +35,8 @@ export function activate(context: vscode.ExtensionContext) {
         const autoUpdate = config.get<boolean>('autoUpdate', true);
         const delay = config.get<number>('updateDelay', 500);
 
-        if (autoUpdate && event.document.languageId === 'cpp' && PreviewPanel.currentPreview) {
+        if (autoUpdate && event.document.languageId === 'cpp' &&
+            PreviewPanel.currentPreview?.cppFile === event.document.fileName) {
             if (updateTimer) {
                 clearTimeout(updateTimer);
             }
-- 
2.43.0


From 97968d0d0677792e0da28ce5ecff015eb49dcc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 73/84] fix: shut GLFW down again when the window cannot be
 created

---
 desktop_blocks/gui/gui_manager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/desktop_blocks/gui/gui_manager.cpp b/desktop_blocks/gui/gui_manager.cpp
index ee55a24..01b313f 100644
--- a/desktop_blocks/gui/gui_manager.cpp
+++ b/desktop_blocks/gui/gui_manager.cpp
@@ -18,6 +18,7 @@ GuiManager::GuiManager(int width, int height, const std::string_view title) {
 
     window = glfwCreateWindow(width, height, title.data(), nullptr, nullptr);
     if (!window) {
+        glfwTerminate();  // no destructor will run
         throw std::runtime_error("Failed to create GLFW window");
     }
     glfwMakeContextCurrent(window);
-- 
2.43.0


From 6bdb96758a878f804d375d928194c2636bbb4e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:50 +0000
Subject: [PATCH 74/84] fix: window title taken from a string_view is not read
 beyond its end

---
 desktop_blocks/gui/gui_manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/gui/gui_manager.cpp b/desktop_blocks/gui/gui_manager.cpp
index 01b313f..de17e22 100644
--- a/desktop_blocks/gui/gui_manager.cpp
+++ b/desktop_blocks/gui/gui_manager.cpp
@@ -3,6 +3,7 @@
 #include <GLFW/glfw3.h>
 #include "imgui_impl_glfw.h"
 #include "imgui_impl_opengl3.h"
+#include <string>
 
 namespace cler {
 
@@ -16,7 +17,7 @@ GuiManager::GuiManager(int width, int height, const std::string_view title) {
     glfwWindowHint(GLFW_OPENGL_PROFILE, GLFW_OPENGL_CORE_PROFILE);
     glfwWindowHint(GLFW_SAMPLES, 4);
 
-    window = glfwCreateWindow(width, height, title.data(), nullptr, nullptr);
+    window = glfwCreateWindow(width, height, std::string(title).c_str(), nullptr, nullptr);
     if (!window) {
         glfwTerminate();  // no destructor will run
         throw std::runtime_error("Failed to create GLFW window");
-- 
2.43.0


From 03d298392fe9aadd61e9d8e539d86f4c387b5343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 75/84] fix: tasks created before one that the system refused
 were never joined (std::terminate on destruction)

---
 include/cler.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cler.hpp b/include/cler.hpp
index 5afa63c..929b93e 100644
--- a/include/cler.hpp
+++ b/include/cler.hpp
@@ -447,10 +447,11 @@ namespace cler {
         void launch_tasks_impl(std::index_sequence<Is...>, const FlowGraphConfig& config) {
             // C++17 fold expression: validates all indices are within bounds at compile time
             static_assert(((Is < _N) && ...), "All block indices must be within bounds");
+            // Counted one by one: when a task cannot be created, stop() still joins the ones before it
+            _active_task_count = 0;
             ((_tasks[Is] = TaskPolicy::create_task([this, config]() {
                 run_block_at_index_thread_per_block<Is>(config);
-            })), ...);
-            _active_task_count = _N;  // ThreadPerBlock creates one task per block
+            }), ++_active_task_count), ...);
         }
         
         template<std::size_t... Is>
-- 
2.43.0


From 0c8062110792a883a46520ce6ec6b8d8c3f955c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:09 +0000
Subject: [PATCH 76/84] fix: an empty packet in an audio file does not stop its
 playback

---
 desktop_blocks/sources/source_audio_file.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/desktop_blocks/sources/source_audio_file.hpp b/desktop_blocks/sources/source_audio_file.hpp
index 9418e3d..7b64dc3 100644
--- a/desktop_blocks/sources/source_audio_file.hpp
+++ b/desktop_blocks/sources/source_audio_file.hpp
@@ -192,7 +192,8 @@ private:
             return false;
         }
         ret = 0;
-        if (_packet.stream_index == _audio_stream_idx) {
+        // A packet without content would have the decoder take the file to be at its end
+        if (_packet.stream_index == _audio_stream_idx && _packet.size > 0) {
             ret = avcodec_send_packet(_codec_ctx, &_packet);
         }
         av_packet_unref(&_packet);
-- 
2.43.0


From 933b5ca3ba142f50d7afd34de1819427d2bd5eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:57 +0000
Subject: [PATCH 77/84] fix: the diagram tool does not take a comment for an
 argument of BlockRunner

---
 tools/mermaid/src/cpp_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/mermaid/src/cpp_parser.cpp b/tools/mermaid/src/cpp_parser.cpp
index a9d61ae..76e0ab4 100644
--- a/tools/mermaid/src/cpp_parser.cpp
+++ b/tools/mermaid/src/cpp_parser.cpp
@@ -280,7 +280,8 @@ void CppParser::extract_single_blockrunner(TSNode node, const std::string&) {
         const char* child_type = ts_node_type(child);
         if (strcmp(child_type, ",") != 0 &&
             strcmp(child_type, "(") != 0 &&
-            strcmp(child_type, ")") != 0) {
+            strcmp(child_type, ")") != 0 &&
+            strcmp(child_type, "comment") != 0) {
             std::string arg_text = get_node_text(child);
             if (!arg_text.empty() && arg_text[0] == '&') {
                 arg_text = arg_text.substr(1);
-- 
2.43.0


From 4034126b24ddb5c24273b8f76e2cf0e56f2b848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:57 +0000
Subject: [PATCH 78/84] fix: the diagram tool does not take an index like 2 * i
 for 2

---
 tools/mermaid/src/cpp_parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/mermaid/src/cpp_parser.cpp b/tools/mermaid/src/cpp_parser.cpp
index 76e0ab4..55102a4 100644
--- a/tools/mermaid/src/cpp_parser.cpp
+++ b/tools/mermaid/src/cpp_parser.cpp
@@ -329,8 +329,12 @@ void CppParser::extract_single_blockrunner(TSNode node, const std::string&) {
                 std::string index_str = target_channel.substr(bracket_pos + 1,
                                                               close_bracket - bracket_pos - 1);
                 try {
-                    conn.channel_index = std::stoi(index_str);
-                    conn.target_channel = target_channel.substr(0, bracket_pos);
+                    size_t parsed = 0;
+                    const int index = std::stoi(index_str, &parsed);
+                    if (parsed == index_str.size()) {
+                        conn.channel_index = index;
+                        conn.target_channel = target_channel.substr(0, bracket_pos);
+                    }
                 } catch (...) {
                     // Keep original channel name if parse fails
                 }
-- 
2.43.0


From aca6deccd6a6766d52ea37c67ab90bb1333f2698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 79/84] fix: the diagram tool finds blocks declared together or
 without arguments, and takes no pointer for a block

---
 tools/mermaid/src/cpp_parser.cpp | 53 ++++++++++++++++----------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/tools/mermaid/src/cpp_parser.cpp b/tools/mermaid/src/cpp_parser.cpp
index 55102a4..95c988c 100644
--- a/tools/mermaid/src/cpp_parser.cpp
+++ b/tools/mermaid/src/cpp_parser.cpp
@@ -140,12 +140,6 @@ void CppParser::process_declaration(TSNode node, const std::string&) {
         return;
     }
 
-    // Look for init_declarator
-    TSNode declarator = find_child_by_type(node, "init_declarator");
-    if (ts_node_is_null(declarator)) {
-        return;
-    }
-
     // Get type
     TSNode type_node = find_child_by_type(node, "type_identifier");
     if (ts_node_is_null(type_node)) {
@@ -171,18 +165,6 @@ void CppParser::process_declaration(TSNode node, const std::string&) {
         return;
     }
 
-    // Get variable name
-    TSNode identifier = find_child_by_type(declarator, "identifier");
-    if (ts_node_is_null(identifier)) {
-        return;
-    }
-    std::string var_name = get_node_text(identifier);
-
-    // Skip if already processed
-    if (blocks_.find(var_name) != blocks_.end()) {
-        return;
-    }
-
     // Extract template parameters using robust bracket counting
     std::string template_params;
     if (strcmp(ts_node_type(type_node), "template_type") == 0) {
@@ -193,15 +175,34 @@ void CppParser::process_declaration(TSNode node, const std::string&) {
         }
     }
 
-    // Create block
-    Block block;
-    block.name = var_name;
-    block.type = type_name;
-    block.template_params = template_params;
-    block.line = ts_node_start_point(declarator).row + 1;
-    block.column = ts_node_start_point(declarator).column;
+    // Create a block for every variable declared here
+    uint32_t child_count = ts_node_child_count(node);
+    for (uint32_t i = 0; i < child_count; i++) {
+        TSNode declarator = ts_node_child(node, i);
+        TSNode identifier = declarator;
+        if (strcmp(ts_node_type(declarator), "init_declarator") == 0) {
+            identifier = ts_node_child(declarator, 0);
+        }
+        // Pointers and references are no blocks of their own
+        if (ts_node_is_null(identifier) || strcmp(ts_node_type(identifier), "identifier") != 0) {
+            continue;
+        }
+        std::string var_name = get_node_text(identifier);
 
-    blocks_[var_name] = block;
+        // Skip if already processed
+        if (blocks_.find(var_name) != blocks_.end()) {
+            continue;
+        }
+
+        Block block;
+        block.name = var_name;
+        block.type = type_name;
+        block.template_params = template_params;
+        block.line = ts_node_start_point(declarator).row + 1;
+        block.column = ts_node_start_point(declarator).column;
+
+        blocks_[var_name] = block;
+    }
 }
 
 void CppParser::process_call_expression(TSNode node, const std::string&) {
-- 
2.43.0


From e9e413f7381cd7c4a5c9858587811cbaf0ffd213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 80/84] fix: the diagram tool finds blocks whose type is named
 with its namespace

---
 tools/mermaid/src/cpp_parser.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tools/mermaid/src/cpp_parser.cpp b/tools/mermaid/src/cpp_parser.cpp
index 95c988c..08fe048 100644
--- a/tools/mermaid/src/cpp_parser.cpp
+++ b/tools/mermaid/src/cpp_parser.cpp
@@ -145,6 +145,17 @@ void CppParser::process_declaration(TSNode node, const std::string&) {
     if (ts_node_is_null(type_node)) {
         type_node = find_child_by_type(node, "template_type");
     }
+    if (ts_node_is_null(type_node)) {
+        // A type named with its namespaces: its last part counts
+        TSNode qualified = find_child_by_type(node, "qualified_identifier");
+        while (!ts_node_is_null(qualified)) {
+            type_node = find_child_by_type(qualified, "type_identifier");
+            if (ts_node_is_null(type_node)) {
+                type_node = find_child_by_type(qualified, "template_type");
+            }
+            qualified = find_child_by_type(qualified, "qualified_identifier");
+        }
+    }
     if (ts_node_is_null(type_node)) {
         return;
     }
@@ -165,6 +176,11 @@ void CppParser::process_declaration(TSNode node, const std::string&) {
         return;
     }
 
+    // A runner stored in a variable is no block
+    if (type_name == "BlockRunner") {
+        return;
+    }
+
     // Extract template parameters using robust bracket counting
     std::string template_params;
     if (strcmp(ts_node_type(type_node), "template_type") == 0) {
-- 
2.43.0


From 8451265d9835ea5477e97fd85e0ba6fd5222c533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 81/84] fix: the diagram tool keeps template parameters with a
 comparison whole

---
 tools/mermaid/src/cpp_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/mermaid/src/cpp_parser.cpp b/tools/mermaid/src/cpp_parser.cpp
index 08fe048..f68f702 100644
--- a/tools/mermaid/src/cpp_parser.cpp
+++ b/tools/mermaid/src/cpp_parser.cpp
@@ -31,7 +31,11 @@ std::string CppParser::extract_template_params_robust(const std::string& text) c
     if (start == std::string::npos) return "";
 
     int depth = 0;
+    int parens = 0;  // comparisons within parentheses are no brackets
     for (size_t i = start; i < text.size(); ++i) {
+        if (text[i] == '(') parens++;
+        if (text[i] == ')') parens--;
+        if (parens > 0) continue;
         if (text[i] == '<') depth++;
         if (text[i] == '>') {
             depth--;
-- 
2.43.0


From e8b5c2c58a370ce487ad02adf19d729ca1e35be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:12 +0000
Subject: [PATCH 82/84] fix: the diagram tool names the diagram of a file in
 the current folder like any other

---
 tools/mermaid/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/mermaid/src/main.cpp b/tools/mermaid/src/main.cpp
index 4b1cefd..1fcd939 100644
--- a/tools/mermaid/src/main.cpp
+++ b/tools/mermaid/src/main.cpp
@@ -133,7 +133,7 @@ int main(int argc, char* argv[]) {
                     base_name = input_file;
                 }
 
-                if (last_dot != std::string::npos && last_dot > last_slash) {
+                if (last_dot != std::string::npos && (last_slash == std::string::npos || last_dot > last_slash)) {
                     base_name = base_name.substr(0, last_dot - (last_slash == std::string::npos ? 0 : last_slash + 1));
                 }
 
-- 
2.43.0


From 73dea5071a8ebd4a8c297113222853cbd67aef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:17 +0000
Subject: [PATCH 83/84] fix: the diagram tool reports a diagram it cannot write

---
 tools/mermaid/src/mermaid_renderer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/mermaid/src/mermaid_renderer.cpp b/tools/mermaid/src/mermaid_renderer.cpp
index 2ac64de..5af88da 100644
--- a/tools/mermaid/src/mermaid_renderer.cpp
+++ b/tools/mermaid/src/mermaid_renderer.cpp
@@ -3,6 +3,7 @@
 #include <sstream>
 #include <algorithm>
 #include <cctype>
+#include <stdexcept>
 
 namespace cler {
 
@@ -19,6 +20,10 @@ void MermaidRenderer::render_to_file(const FlowGraph& flowgraph,
     std::string content = generate_mermaid(flowgraph);
     std::ofstream file(output_path + ".md");
     file << content;
+    file.close();
+    if (!file) {
+        throw std::runtime_error("Cannot write file: " + output_path + ".md");
+    }
 }
 
 std::string MermaidRenderer::generate_mermaid(const FlowGraph& flowgraph) {
-- 
2.43.0


From 32195d9a524ad355953fc1934ff768c9675af437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:12 +0000
Subject: [PATCH 84/84] fix: the spectrum plot draws without mirrored memory

render() took the history through read_dbf(), which gives no pointer where
the system refused the mirrored mapping; procedure() has a fallback for
that case, render() copied from a null pointer.
---
 desktop_blocks/plots/plot_cspectrum.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/desktop_blocks/plots/plot_cspectrum.cpp b/desktop_blocks/plots/plot_cspectrum.cpp
index a76923d..5223323 100644
--- a/desktop_blocks/plots/plot_cspectrum.cpp
+++ b/desktop_blocks/plots/plot_cspectrum.cpp
@@ -200,11 +200,19 @@ void PlotCSpectrumBlock::render() {
         // Only snapshot if enough samples
         if (available >= _n_fft_samples) {
             for (size_t i = 0; i < _num_inputs; ++i) {
-                auto [ptr, size] = _signal_channels[i].read_dbf();
+                // In up to two pieces, where the memory is not mirrored
+                const std::complex<float>* ptr1; const std::complex<float>* ptr2;
+                size_t size1, size2;
+                size_t skip = _signal_channels[i].peek_read(ptr1, size1, ptr2, size2) - _n_fft_samples;
                 // Copy only the last _n_fft_samples samples for FFT
-                memcpy(_snapshot_buffers[i], 
-                       ptr + size - _n_fft_samples, 
-                       _n_fft_samples * sizeof(std::complex<float>));
+                size_t first = skip < size1 ? size1 - skip : 0;
+                size_t rest = _n_fft_samples - first;
+                if (first > 0) {
+                    memcpy(_snapshot_buffers[i], ptr1 + skip, first * sizeof(std::complex<float>));
+                }
+                if (rest > 0) {
+                    memcpy(_snapshot_buffers[i] + first, ptr2 + (size2 - rest), rest * sizeof(std::complex<float>));
+                }
             }
         }
          _snapshot_mutex.unlock();
-- 
2.43.0

