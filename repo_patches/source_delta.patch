From 8cd9c0850edd562ff4301e26a2c05106bddbd5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:56 +0000
Subject: [PATCH 01/66] fix: register lazily created thread states under the
 state lock

---
 src/init.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/init.cpp b/src/init.cpp
index fdd3aef..3fde2ab 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -336,6 +336,9 @@ void jitc_shutdown(int light) {
 
 
 ThreadState *jitc_init_thread_state(JitBackend backend) {
+    // Some entry points reach this function without holding the lock
+    lock_guard guard(state.lock);
+
     ThreadState *ts = nullptr;
 
 #if defined(DRJIT_ENABLE_METAL)
-- 
2.43.0


From e41dc9943176b7c4ec3ebd876ddd8cce4dcd16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:56 +0000
Subject: [PATCH 02/66] fix: make the source location buffer thread-local

---
 src/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index 7ff9e74..00cb120 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -711,7 +711,7 @@ void jitc_value_print(const Variable *v, bool graphviz = false) {
     #undef JIT_LITERAL_PRINT
 }
 
-static char source_location_buf[256] { 0 };
+static thread_local char source_location_buf[256] { 0 };
 
 void jitc_set_source_location(const char *fname, size_t lineno) noexcept {
     if (!fname)
-- 
2.43.0


From c4d2fffc67af47f9be6b7a6840ffe9de779d348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 03/66] fix: release the state lock while waiting for a
 blocking CUDA launch

---
 src/cuda_ts.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cuda_ts.cpp b/src/cuda_ts.cpp
index 741f6d9..eeb9cbe 100644
--- a/src/cuda_ts.cpp
+++ b/src/cuda_ts.cpp
@@ -30,8 +30,10 @@ static void submit_gpu(KernelType type, KernelRecordingMode recording_mode,
                               block_count_z, thread_count, 1, 1,
                               shared_mem_bytes, stream, args, extra));
 
-    if (unlikely(flags & (uint32_t) JitFlag::LaunchBlocking))
+    if (unlikely(flags & (uint32_t) JitFlag::LaunchBlocking)) {
+        unlock_guard guard(state.lock);
         cuda_check(cuStreamSynchronize(stream));
+    }
 
     if (unlikely(flags & (uint32_t) JitFlag::KernelHistory)) {
         entry.backend = JitBackend::CUDA;
@@ -108,9 +110,10 @@ CUDAThreadState::launch(Kernel kernel, KernelKey & /*key*/,
                    block_count == 1 ? "" : "s");
     }
 
-    if (unlikely(jit_flag(JitFlag::LaunchBlocking)))
+    if (unlikely(jit_flag(JitFlag::LaunchBlocking))) {
+        unlock_guard guard(state.lock);
         cuda_check(cuStreamSynchronize(stream));
-
+    }
 
     // Cleanup global kernel parameters
     jitc_free(kernel_params_global);
-- 
2.43.0


From a9998abe88a9e9d70bd98e90f94ca6453fc4d258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 04/66] fix: release the state lock while waiting for a
 blocking LLVM launch

---
 src/llvm_ts.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 816d6f5..f14f01e 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -186,8 +186,10 @@ LLVMThreadState::launch(Kernel kernel, KernelKey & /*key*/,
         nullptr
     );
 
-    if (unlikely(jit_flag(JitFlag::LaunchBlocking)))
+    if (unlikely(jit_flag(JitFlag::LaunchBlocking))) {
+        unlock_guard guard(state.lock);
         task_wait(ret_task);
+    }
 
     scheduled_tasks.push_back(ret_task);
 
-- 
2.43.0


From 64658c88a136502e4d9cb5fab5a909da4246b3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 05/66] fix: release the state lock in jit_event_elapsed_time()
 while waiting

---
 src/llvm_ts.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index f14f01e..ff72ca4 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -1225,9 +1225,19 @@ float jitc_llvm_event_elapsed_time(JitEvent start, JitEvent end) {
     if (!s->llvm_task || !e->llvm_task)
         jitc_raise("jit_event_elapsed_time(): events must be recorded");
 
-    // Ensure both tasks are complete
-    task_wait(s->llvm_task);
-    task_wait(e->llvm_task);
+    Task *s_task = s->llvm_task, *e_task = e->llvm_task;
+    task_retain(s_task);
+    task_retain(e_task);
 
-    return (float) task_time_rel(s->llvm_task, e->llvm_task);
+    // Ensure both tasks are complete. Release the lock while waiting
+    /* Unlocked */ {
+        unlock_guard guard(state.lock);
+        task_wait(s_task);
+        task_wait(e_task);
+    }
+
+    float result = (float) task_time_rel(s_task, e_task);
+    task_release(s_task);
+    task_release(e_task);
+    return result;
 }
-- 
2.43.0


From 9dde627bf4c6c269a5ca3fd6961ca81bc42ee03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 06/66] fix: release the state lock in jit_cuda_set_device()
 while waiting

---
 src/init.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/init.cpp b/src/init.cpp
index 3fde2ab..a761eb8 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -483,6 +483,7 @@ void jitc_cuda_set_device(int device_id) {
 
     if (ts->stream) {
         scoped_set_context guard(ts->context);
+        unlock_guard guard_2(state.lock);
         cuda_check(cuStreamSynchronize(ts->stream));
     }
 
-- 
2.43.0


From e459a057d8ad2cd3398a45df3bdf80d4c32007d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 07/66] fix: release the state lock in KernelHistory::get()
 while waiting

---
 src/init.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/init.cpp b/src/init.cpp
index a761eb8..0f1860a 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -802,8 +802,13 @@ void KernelHistory::append(const KernelHistoryEntry &value) {
 
 KernelHistoryEntry *KernelHistory::get() {
     KernelHistoryEntry *data = m_data;
+    size_t size = m_size;
 
-    for (size_t i = 0; i < m_size; i++) {
+    // Detach the entries, 'state.lock' is released while waiting below
+    m_data = nullptr;
+    m_size = m_capacity = 0;
+
+    for (size_t i = 0; i < size; i++) {
         KernelHistoryEntry &k = data[i];
 #if defined(DRJIT_ENABLE_CUDA)
         if (jitc_is_cuda(k.backend)) {
@@ -823,16 +828,16 @@ KernelHistoryEntry *KernelHistory::get() {
         } else
 #endif
         {
-            task_wait((Task *) k.task);
+            /* Unlocked */ {
+                unlock_guard guard(state.lock);
+                task_wait((Task *) k.task);
+            }
             k.execution_time = (float) task_time((Task *) k.task);
             task_release((Task *) k.task);
             k.task = nullptr;
         }
     }
 
-    m_data = nullptr;
-    m_size = m_capacity = 0;
-
     return data;
 }
 
-- 
2.43.0


From d11a258eb2662b5ae9b8d3ed7e333372d178f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:51 +0000
Subject: [PATCH 08/66] fix: do not deliver log messages while the evaluation
 lock is held

---
 src/log.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/log.cpp b/src/log.cpp
index d20365d..5c3efa3 100644
--- a/src/log.cpp
+++ b/src/log.cpp
@@ -108,7 +108,12 @@ void jit_set_log_defer_callback(LogDeferCallback callback) {
 void lock_release_pending(Lock &lock) noexcept {
     lock.recursion_count = 1; // Clears LOCK_PENDING
     lock_release(lock);       // Takes the fast path and fully unlocks
-    jit_log_flush();
+
+    // 'state.eval_lock' is released before 'state.lock', which delivers later
+    if (state.lock.owner.load(std::memory_order_relaxed) == thread_id())
+        lock_set_pending(state.lock);
+    else
+        jit_log_flush();
 }
 
 /// Queue `msg`, and arrange for it to be delivered at a safe moment
@@ -120,6 +125,8 @@ static void jitc_log_postpone(LogLevel log_level, std::string &&msg) {
 
     if (likely(state.lock.owner.load(std::memory_order_relaxed) == thread_id()))
         lock_set_pending(state.lock); // Deliver once this thread lets go
+    else if (state.eval_lock.owner.load(std::memory_order_relaxed) == thread_id())
+        lock_set_pending(state.eval_lock); // 'state.lock' temporarily released
     else
         jit_log_flush();
 }
-- 
2.43.0


From d57ec923cfa5afe7485900c1ecb3df76276fc752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:52 +0000
Subject: [PATCH 09/66] fix: copy callback record before releasing the state
 lock

---
 src/eval.cpp | 7 +++++--
 src/var.cpp  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index ea25e80..74470e1 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -1013,12 +1013,15 @@ void jitc_eval(ThreadState *ts) {
 
         jitc_log(Trace, "jit_eval(): running %zu callbacks ..", cb.size());
         for (uint32_t index: cb) {
+            // Copy the entry, 'state.extra' may change while the lock is released
             VariableExtra &extra = state.extra[jitc_var(index)->extra];
+            auto callback = extra.callback;
+            void *callback_data = extra.callback_data;
             if (extra.callback_internal) {
-                extra.callback(index, 0, extra.callback_data);
+                callback(index, 0, callback_data);
             } else {
                 unlock_guard guard_2(state.lock);
-                extra.callback(index, 0, extra.callback_data);
+                callback(index, 0, callback_data);
             }
             jitc_var_dec_ref(index);
         }
diff --git a/src/var.cpp b/src/var.cpp
index 00cb120..0ca7c68 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -409,11 +409,14 @@ JIT_NOINLINE void jitc_var_free(uint32_t index, Variable *v) noexcept {
             /* Notify callback that the variable was freed.
                Do this first, before freeing any dependencies */
             if (extra.callback) {
+                // Copy the entry, 'state.extra' may change while unlocked
+                auto callback = extra.callback;
+                void *callback_data = extra.callback_data;
                 if (extra.callback_internal) {
-                    extra.callback(index, 1, extra.callback_data);
+                    callback(index, 1, callback_data);
                 } else {
                     unlock_guard guard(state_.lock);
-                    extra.callback(index, 1, extra.callback_data);
+                    callback(index, 1, callback_data);
                 }
             }
 
-- 
2.43.0


From b283537cc09e5cfafbbfcbbebe4491ccecf464ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:53 +0000
Subject: [PATCH 10/66] fix: key the cached call reduction by domain as well

---
 src/call.cpp   | 19 +++++++++++++------
 src/internal.h |  3 ++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/call.cpp b/src/call.cpp
index 7ca8b53..f5dd591 100644
--- a/src/call.cpp
+++ b/src/call.cpp
@@ -1247,9 +1247,11 @@ void jitc_call_upload(ThreadState *ts) {
 std::vector<CallReduceRecord> call_reduce_cache;
 
 void jitc_var_call_reduce_cache_remove(uint32_t index) {
-    for (size_t i = 0; i < call_reduce_cache.size(); ++i) {
-        if (call_reduce_cache[i].index != index)
+    for (size_t i = 0; i < call_reduce_cache.size(); ) {
+        if (call_reduce_cache[i].index != index) {
+            ++i;
             continue;
+        }
 
         // Pop before freeing, so a recursive free via 'dec_ref' sees a
         // consistent cache.
@@ -1260,7 +1262,7 @@ void jitc_var_call_reduce_cache_remove(uint32_t index) {
         for (uint32_t j = 0; j < rec.bucket_count; ++j)
             jitc_var_dec_ref(rec.buckets[j].index);
         jitc_free(rec.buckets);
-        return;
+        i = 0; // The recursive free may have reordered the cache
     }
 }
 
@@ -1269,9 +1271,13 @@ CallBucket *jitc_var_call_reduce(JitBackend backend, const char *variant,
                                  const char *domain, uint32_t index,
                                  uint32_t *bucket_count_inout) {
 
-    // Reuse a cached result for this index, if present.
+    const char *variant_key = domain ? variant : "",
+               *domain_key = domain ? domain : "";
+
+    // Reuse a cached result for this index and domain, if present.
     for (const CallReduceRecord &rec : call_reduce_cache) {
-        if (rec.index == index) {
+        if (rec.index == index && rec.domain == domain_key &&
+            rec.variant == variant_key) {
             *bucket_count_inout = rec.bucket_count;
             return rec.buckets;
         }
@@ -1382,7 +1388,8 @@ CallBucket *jitc_var_call_reduce(JitBackend backend, const char *variant,
 
     // Cache for reuse by later calls sharing this index; freed in 'jitc_var_free()'.
     call_reduce_cache.push_back(
-        CallReduceRecord{ index, unique_count_out, (CallBucket *) offsets });
+        CallReduceRecord{ index, variant_key, domain_key, unique_count_out,
+                          (CallBucket *) offsets });
 
     *bucket_count_inout = unique_count_out;
     return (CallBucket *) offsets;
diff --git a/src/internal.h b/src/internal.h
index 2564814..d0f81d7 100644
--- a/src/internal.h
+++ b/src/internal.h
@@ -407,9 +407,10 @@ struct VariableExtra {
 
 struct CallBucket;
 
-/// Memoized 'jit_var_call_reduce()' result, keyed by its index variable.
+/// Memoized 'jit_var_call_reduce()' result, keyed by its index variable and domain
 struct CallReduceRecord {
     uint32_t index;
+    std::string variant, domain; ///< Empty if there is no domain
     uint32_t bucket_count;
     CallBucket *buckets; ///< Owns the allocation + bucket refs
 };
-- 
2.43.0


From afcd95286d84d3afc6a51361ae0f8d8049b410b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 11/66] fix: drop the cached call reduction when its index
 array is written

---
 src/var.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/var.cpp b/src/var.cpp
index 0ca7c68..9ab33a8 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -563,6 +563,10 @@ void jitc_var_inc_ref_se(uint32_t index, Variable *v) noexcept {
     (void) index; // jitc_trace may be disabled
     v->ref_count_se++;
     jitc_trace("jit_var_inc_ref_se(r%u): %u", index, (uint32_t) v->ref_count_se);
+
+    // The contents will change, any 'jit_var_call_reduce()' result becomes stale
+    if (unlikely(!call_reduce_cache.empty()))
+        jitc_var_call_reduce_cache_remove(index);
 }
 
 /// Increase the side effect reference count of a given variable
@@ -1780,6 +1784,10 @@ uint32_t jitc_var_write(uint32_t index_, size_t offset, const void *src) {
     uint32_t isize = type_size[v->type];
     uint8_t *dst = (uint8_t *) v->data + offset * isize;
 
+    // The contents will change, any 'jit_var_call_reduce()' result becomes stale
+    if (unlikely(!call_reduce_cache.empty()))
+        jitc_var_call_reduce_cache_remove(index);
+
     jitc_poke((JitBackend) v->backend, dst, src, isize);
 
     return index.release();
-- 
2.43.0


From 70fd02cb2c658c9b9d50c67f4230b573093dcf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:13 +0000
Subject: [PATCH 12/66] fix: keep single-target callables apart when function
 merging is disabled

---
 src/eval.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 74470e1..ff3aa8c 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -1313,7 +1313,8 @@ XXH128_hash_t jitc_assemble_func(const CallData *call, uint32_t inst,
     if (jit_flag(JitFlag::MergeFunctions)) {
         kernel_hash = XXH128(buffer.get() + kernel_offset, kernel_length, 0);
     } else {
-        kernel_hash.low64 = indirect_callable_count;
+        // Unique identifier (every callable inserts another entry)
+        kernel_hash.low64 = globals_map.size();
         kernel_hash.high64 = 0;
     }
 
-- 
2.43.0


From da7105a3eefeca47789186c57551b3704cd207a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:04 +0000
Subject: [PATCH 13/66] fix: forget leaked instances when the registry is shut
 down

---
 src/registry.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index 0aaaa26..88a3650 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -68,7 +68,7 @@ uint32_t jitc_registry_put(const char *variant, const char *domain_name, void *p
 
     auto [it1, result1] =
         r.rev_map.try_emplace(ptr, ReverseKey{});
-    if (unlikely(!result1))
+    if (unlikely(!result1 && it1->second.index != UINT32_MAX))
         jitc_raise("jit_registry_put(domain=\"%s\", ptr=%p): pointer is "
                    "already registered!", domain_name, ptr);
 
@@ -250,8 +250,10 @@ void jitc_registry_shutdown() {
         if (!r.rev_map.empty()) {
             std::vector<size_t> leak_counts(r.domains.size(), 0);
 
-            for (const auto &entry : r.rev_map)
-                leak_counts.at(entry.second.domain_id)++;
+            for (const auto &entry : r.rev_map) {
+                if (entry.second.index != UINT32_MAX) // not a cleared pointer
+                    leak_counts.at(entry.second.domain_id)++;
+            }
 
             for (size_t i = 0; i < r.domains.size(); i++) {
                 if (leak_counts[i] > 0)
@@ -262,6 +264,9 @@ void jitc_registry_shutdown() {
         }
     }
 
+    // Leaked pointers must not refer to the domains that are about to go away
+    jitc_registry_clear();
+
     r.domain_ids.clear();
     r.domains.clear();
 }
-- 
2.43.0


From d6907f198bcca652e729cbd9ba664d5aa30f286e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 14/66] fix: reset all CUDA entry points on shutdown

---
 src/cuda_api.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cuda_api.cpp b/src/cuda_api.cpp
index d19a578..5ae478c 100644
--- a/src/cuda_api.cpp
+++ b/src/cuda_api.cpp
@@ -194,6 +194,7 @@ void jitc_cuda_api_shutdown() {
         return;
 
     #define Z(x) x = nullptr
+    Z(cuEventQuery); Z(cuMemAllocAsync); Z(cuMemFreeAsync);
     Z(cuCtxEnablePeerAccess); Z(cuCtxSynchronize); Z(cuDeviceCanAccessPeer);
     Z(cuDeviceGet); Z(cuDeviceGetAttribute); Z(cuDeviceGetCount);
     Z(cuDeviceGetName); Z(cuDevicePrimaryCtxRelease);
-- 
2.43.0


From 158449bfd51b7842fb8625c11679dd14b576f154 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 15/66] fix: reset optixQueryFunctionTable on shutdown

---
 src/optix_api.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optix_api.cpp b/src/optix_api.cpp
index ff02365..4912892 100644
--- a/src/optix_api.cpp
+++ b/src/optix_api.cpp
@@ -289,6 +289,7 @@ void jitc_optix_api_shutdown() {
     Z(optixPipelineDestroy); Z(optixLaunch); Z(optixSbtRecordPackHeader);
     Z(optixPipelineSetStackSize); Z(optixProgramGroupGetStackSize);
     Z(optixCoopVecMatrixConvert); Z(optixCoopVecMatrixComputeSize);
+    Z(optixQueryFunctionTable);
     #undef Z
 }
 
-- 
2.43.0


From 24b8834a4ac20cc7a94869fde9774c5b8b29ec35 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 16/66] fix: require cuGreenCtxDestroy before creating green
 contexts

---
 src/cuda_green.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cuda_green.cpp b/src/cuda_green.cpp
index 2548f3b..8d587a5 100644
--- a/src/cuda_green.cpp
+++ b/src/cuda_green.cpp
@@ -32,7 +32,8 @@ CUDAGreenContext *jitc_cuda_green_context_make(uint32_t sm_count_requested,
 
 #if defined(DRJIT_DYNAMIC_CUDA)
     if (!cuCtxGetDevResource || !cuDevSmResourceSplitByCount ||
-        !cuDevResourceGenerateDesc || !cuGreenCtxCreate || !cuCtxFromGreenCtx)
+        !cuDevResourceGenerateDesc || !cuGreenCtxCreate || !cuCtxFromGreenCtx ||
+        !cuGreenCtxDestroy)
         jitc_raise("jit_cuda_green_context_make(): required driver symbols are missing. "
                    "Ensure a recent CUDA driver is installed and that green contexts are supported.");
 #endif
-- 
2.43.0


From c6f03cfeaf99a3091355d94dcbf18446072228f5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 17/66] fix: require LLVMGetErrorMessage, which the pass
 builder path also calls

---
 src/llvm_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/llvm_api.cpp b/src/llvm_api.cpp
index 090100b..2f0ed8b 100644
--- a/src/llvm_api.cpp
+++ b/src/llvm_api.cpp
@@ -123,6 +123,7 @@ bool jitc_llvm_api_init() {
     LOAD(core, LLVMDisasmInstruction);
     LOAD(core, LLVMVerifyModule);
     LOAD(core, LLVMDisposeTargetMachine);
+    LOAD(core, LLVMGetErrorMessage);
 
     LOAD(version, LLVMGetVersion);
 
@@ -155,7 +156,6 @@ bool jitc_llvm_api_init() {
     LOAD(orcv2, LLVMOrcCreateLLJITBuilder);
     LOAD(orcv2, LLVMOrcLLJITBuilderSetJITTargetMachineBuilder);
     LOAD(orcv2, LLVMOrcCreateLLJIT);
-    LOAD(orcv2, LLVMGetErrorMessage);
     LOAD(orcv2, LLVMOrcLLJITAddLLVMIRModule);
     LOAD(orcv2, LLVMOrcLLJITLookup);
     LOAD(orcv2, LLVMOrcLLJITGetMainJITDylib);
-- 
2.43.0


From 322537b5aefc6b126fece57b2883f013c96454af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 18/66] fix: define jit_reduce() with the signature declared in
 jit.h

---
 src/api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api.cpp b/src/api.cpp
index 5847f0f..99ff72e 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1301,7 +1301,7 @@ void jit_memcpy_async(JitBackend backend, void *dst, const void *src, size_t siz
 }
 
 void jit_reduce(JitBackend backend, VarType type, ReduceOp op,
-                uint32_t size, const void *in, void *out) {
+                const void *in, uint32_t size, void *out) {
     lock_guard guard(state.lock);
     jitc_reduce(backend, type, op, size, in, out);
 }
-- 
2.43.0


From 51e3aff3a5fd13be404baebdfe091b4b376897e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 19/66] fix: remove the declaration of jit_var_registry_attr(),
 which does not exist

---
 include/drjit-core/jit.h | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/include/drjit-core/jit.h b/include/drjit-core/jit.h
index c4db969..ecbddaf 100644
--- a/include/drjit-core/jit.h
+++ b/include/drjit-core/jit.h
@@ -1511,20 +1511,6 @@ extern JIT_EXPORT void jit_var_read(uint32_t index, size_t offset,
 extern JIT_EXPORT uint32_t jit_var_write(uint32_t index, size_t offset,
                                          const void *src);
 
-/**
- * \brief Create a new variable representing an array containing a specific
- * attribute associated with a specific domain in the registry.
- *
- * This function is very similar to jit_registry_attr_data but returns
- * a variable instead of a data pointer.
- *
- * \sa jit_registry_attr_data
- */
-extern JIT_EXPORT uint32_t jit_var_registry_attr(JIT_ENUM JitBackend backend,
-                                                 JIT_ENUM VarType type,
-                                                 const char *domain,
-                                                 const char *name);
-
 // ====================================================================
 //                 Kernel compilation and evaluation
 // ====================================================================
-- 
2.43.0


From 98b4f18b887252c9b8189b22ba9f2384fe229239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 20/66] fix: give the jit_metal_*() placeholders of builds
 without Metal the declared C linkage

---
 src/api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api.cpp b/src/api.cpp
index 99ff72e..fa31738 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -32,6 +32,7 @@
 #include <condition_variable>
 #include <drjit-core/half.h>
 #include <drjit-core/texture.h>
+#include <drjit-core/metal.h>
 
 #if defined(DRJIT_ENABLE_OPTIX)
 #  include <drjit-core/optix.h>
@@ -39,7 +40,6 @@
 #endif
 
 #if defined(DRJIT_ENABLE_METAL)
-#  include <drjit-core/metal.h>
 #  include "metal.h"
 #  include "metal_tex.h"
 #endif
-- 
2.43.0


From c90a34b285c59b05d29d0846867407d6b3ddbc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 21/66] fix: define the OpenGL interoperability functions in
 builds without CUDA

---
 src/api.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/api.cpp b/src/api.cpp
index fa31738..81c31d4 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -33,6 +33,7 @@
 #include <drjit-core/half.h>
 #include <drjit-core/texture.h>
 #include <drjit-core/metal.h>
+#include <drjit-core/gl_interop.h>
 
 #if defined(DRJIT_ENABLE_OPTIX)
 #  include <drjit-core/optix.h>
@@ -401,6 +402,13 @@ int jit_cuda_compute_capability() { jit_cuda_unavailable(); return 0; }
 void jit_cuda_set_target(uint32_t, uint32_t) { jit_cuda_unavailable(); }
 void *jit_cuda_lookup(const char *) { jit_cuda_unavailable(); return nullptr; }
 void jit_cuda_sync_stream(uintptr_t) { jit_cuda_unavailable(); }
+void *jit_register_gl_buffer(unsigned int) { jit_cuda_unavailable(); return nullptr; }
+void *jit_register_gl_texture(unsigned int) { jit_cuda_unavailable(); return nullptr; }
+void jit_unregister_cuda_resource(void *) { jit_cuda_unavailable(); }
+void *jit_map_graphics_resource_ptr(void *, size_t *) { jit_cuda_unavailable(); return nullptr; }
+void *jit_map_graphics_resource_array(void *, uint32_t) { jit_cuda_unavailable(); return nullptr; }
+void jit_unmap_graphics_resource(void *) { jit_cuda_unavailable(); }
+void jit_memcpy_2d_to_array_async(void *, const void *, size_t, size_t, bool) { jit_cuda_unavailable(); }
 #endif
 
 void jit_llvm_set_thread_count(uint32_t size) {
-- 
2.43.0


From d1457c69def237b6920db853113950012621783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:17 +0000
Subject: [PATCH 22/66] fix: define the OptiX functions in builds without OptiX

---
 src/api.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/api.cpp b/src/api.cpp
index 81c31d4..99460a5 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -34,9 +34,9 @@
 #include <drjit-core/texture.h>
 #include <drjit-core/metal.h>
 #include <drjit-core/gl_interop.h>
+#include <drjit-core/optix.h>
 
 #if defined(DRJIT_ENABLE_OPTIX)
-#  include <drjit-core/optix.h>
 #  include "optix.h"
 #endif
 
@@ -1507,6 +1507,31 @@ uint32_t jit_optix_sbt_data_load(uint32_t sbt_data_ptr, VarType type,
     lock_guard guard(state.lock);
     return jitc_optix_sbt_data_load(sbt_data_ptr, type, offset, mask);
 }
+#else
+static void jit_optix_unavailable() {
+    jitc_raise("OptiX is unavailable: Dr.Jit was compiled without OptiX "
+               "support.");
+}
+OptixDeviceContext jit_optix_context() { jit_optix_unavailable(); return nullptr; }
+void *jit_optix_lookup(const char *) { jit_optix_unavailable(); return nullptr; }
+void jit_optix_check_impl(int, const char *, const int) { jit_optix_unavailable(); }
+uint32_t jit_optix_configure_pipeline(const OptixPipelineCompileOptions *, OptixModule,
+                                      const OptixProgramGroup *, uint32_t) {
+    jit_optix_unavailable(); return 0;
+}
+uint32_t jit_optix_configure_sbt(const OptixShaderBindingTable *, uint32_t) {
+    jit_optix_unavailable(); return 0;
+}
+void jit_optix_update_sbt(uint32_t, const OptixShaderBindingTable *) { jit_optix_unavailable(); }
+uint32_t jit_optix_sbt_owner_handle(uint32_t) { jit_optix_unavailable(); return 0; }
+void jit_optix_ray_trace(uint32_t, uint32_t *, uint32_t, OptixHitObjectField *,
+                         uint32_t *, int, uint32_t, uint32_t, int, uint32_t,
+                         uint32_t, uint32_t) {
+    jit_optix_unavailable();
+}
+uint32_t jit_optix_sbt_data_load(uint32_t, VarType, uint32_t, uint32_t) {
+    jit_optix_unavailable(); return 0;
+}
 #endif
 
 void jit_llvm_ray_trace(uint32_t func, uint32_t scene, int shadow_ray,
-- 
2.43.0


From ecd7fbe2b7a53722008680c913be62d2fb8d0375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 23/66] fix: pass the size and block size of
 jit_block_prefix_reduce() in the right order

---
 src/api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api.cpp b/src/api.cpp
index 99460a5..e03b649 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1340,7 +1340,7 @@ void jit_block_prefix_reduce(JitBackend backend, VarType type, ReduceOp op,
                              uint32_t block_size, uint32_t size, int exclusive,
                              int reverse, const void *in, void *out) {
     lock_guard guard(state.lock);
-    jitc_block_prefix_reduce(backend, type, op, block_size, size,
+    jitc_block_prefix_reduce(backend, type, op, size, block_size,
                              exclusive != 0, reverse != 0, in, out);
 }
 
-- 
2.43.0


From 12a2c87e6d27391ca3f45ada2675b2a9a255ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 24/66] fix: leave the recording mode in jit_freeze_abort()
 before an error of a disabled backend is raised

---
 src/record_ts.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 9a553b2..d24b6d3 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -2832,6 +2832,9 @@ void jitc_freeze_abort(JitBackend backend) {
         // variables
         internal->scope = rts->scope;
 
+        internal->recording_mode = KernelRecordingMode::Inactive;
+        jitc_set_flag(JitFlag::FreezingScope, false);
+
 #if defined(DRJIT_ENABLE_CUDA)
         if (jitc_is_cuda(backend)) {
             thread_state_cuda = internal;
@@ -2859,9 +2862,6 @@ void jitc_freeze_abort(JitBackend backend) {
             unset_disabled_thread_state(&thread_state_metal);
 #endif
         }
-
-        internal->recording_mode = KernelRecordingMode::Inactive;
-        jitc_set_flag(JitFlag::FreezingScope, false);
     }
 }
 
-- 
2.43.0


From 49026231020441c2f06c13de66deba1904917c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 25/66] fix: free the wrapper of a disabled backend when its
 error is raised

---
 src/record_ts.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index d24b6d3..3354f23 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -135,6 +135,7 @@
 #include "profile.h"
 #include "util.h"
 #include "var.h"
+#include <memory>
 
 const char *op_type_name[(int) OpType::Count]{
     "Barrier",        "KernelLaunch",      "MemsetAsync",          "Expand",
@@ -2670,8 +2671,8 @@ void unset_disabled_thread_state(ThreadState **tsp) {
     if (DisabledThreadState *dts = dynamic_cast<DisabledThreadState *>(*tsp);
         dts != nullptr) {
         *tsp = dts->m_internal;
+        std::unique_ptr<DisabledThreadState> guard(dts);
         dts->rethrow_exception();
-        delete dts;
     } else {
         jitc_fail("Tried to enable a ThreadState that was not disabled.");
     }
-- 
2.43.0


From 4cea3a152cb8196f385e76a2d8ab6f64f09fae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 26/66] fix: report expanded reductions and matrix packing of a
 disabled backend as errors

---
 src/record_ts.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 3354f23..58ab35a 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -2645,11 +2645,15 @@ struct DisabledThreadState final : ThreadState {
     void notify_expand(uint32_t /*index*/) override {};
     void reduce_expanded(VarType /*vt*/, ReduceOp /*reduce_op*/,
                          void * /*data*/, uint32_t /*exp*/,
-                         uint32_t /*size*/) override {}
+                         uint32_t /*size*/) override {
+        record_exception();
+    }
     void notify_free(const void * /*ptr*/) override {}
     void coop_vec_pack(uint32_t /* count */, const void * /* in */,
                        const MatrixDescr * /* in_d */, void * /* out */,
-                       const MatrixDescr * /* out_d */) override { }
+                       const MatrixDescr * /* out_d */) override {
+        record_exception();
+    }
 
     void batched_gemm(VarType /* type */, bool /* At */, bool /* Bt */,
                       uint32_t /* M */, uint32_t /* N */, uint32_t /* K */,
-- 
2.43.0


From 30c2e929d98761feb15fd38e693a437a19f19cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 27/66] fix: raise the error of an output that cannot be
 recorded in jit_freeze_stop()

---
 src/record_ts.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 58ab35a..c232672 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -2807,6 +2807,9 @@ Recording *jitc_freeze_stop(JitBackend backend, const uint32_t *outputs,
         for (uint32_t i = 0; i < n_outputs; ++i)
             rts->add_output(outputs[i]);
 
+        if (rts->m_exception)
+            std::rethrow_exception(rts->m_exception);
+
         Recording *recording = new Recording(std::move(rts->m_recording));
         try {
             recording->validate(scope);
-- 
2.43.0


From 4285c4016e2ff236d68947a57b4eb3c8fc94c8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 28/66] fix: report block_mkperm() on an untracked input while
 recording

The operation was executed but silently left out of the recording, hence
replays produced an uninitialized permutation. Rely on get_variable() to
raise instead, like the other operations do.
---
 src/record_ts.cpp | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index c232672..a4002db 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -1616,25 +1616,23 @@ void RecordThreadState::record_block_mkperm(const uint32_t *values,
                                               uint32_t bucket_count,
                                               uint32_t *perm,
                                               uint32_t *offsets) {
-    if (has_variable(values)) {
-        jitc_log(LogLevel::Debug,
-                 "record(): block_mkperm(values=%p, size=%u, "
-                 "block_size=%u, bucket_count=%u, perm=%p, offsets=%p)",
-                 values, size, block_size, bucket_count, perm, offsets);
+    jitc_log(LogLevel::Debug,
+             "record(): block_mkperm(values=%p, size=%u, "
+             "block_size=%u, bucket_count=%u, perm=%p, offsets=%p)",
+             values, size, block_size, bucket_count, perm, offsets);
 
-        uint32_t start = (uint32_t) m_recording.dependencies.size();
-        add_in_param(values);
-        add_out_param(perm, VarType::UInt32);
-        add_out_param(offsets, VarType::UInt32);
-        uint32_t end = (uint32_t) m_recording.dependencies.size();
+    uint32_t start = (uint32_t) m_recording.dependencies.size();
+    add_in_param(values);
+    add_out_param(perm, VarType::UInt32);
+    add_out_param(offsets, VarType::UInt32);
+    uint32_t end = (uint32_t) m_recording.dependencies.size();
 
-        Operation op;
-        op.type             = OpType::BlockMkperm;
-        op.dependency_range = std::pair(start, end);
-        op.size             = size;
-        op.block_mkperm   = { bucket_count, block_size };
-        m_recording.operations.push_back(op);
-    }
+    Operation op;
+    op.type             = OpType::BlockMkperm;
+    op.dependency_range = std::pair(start, end);
+    op.size             = size;
+    op.block_mkperm   = { bucket_count, block_size };
+    m_recording.operations.push_back(op);
 }
 
 int Recording::replay_block_mkperm(Operation &op) {
-- 
2.43.0


From 0c7fec957b950ed79d44c5d536a4f7c18642c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:13 +0000
Subject: [PATCH 29/66] fix: report synchronous copies to tracked memory while
 recording

They are executed but cannot be replayed; previously, the frozen function
silently skipped them.
---
 src/record_ts.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index a4002db..5016f64 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -1373,6 +1373,17 @@ int Recording::replay_block_reduce_bool(Operation &op) {
 void RecordThreadState::memcpy(void *dst, const void *src, size_t size) {
     jitc_log(LogLevel::Debug, "record(): memcpy(dst=%p, src=%p, size=%zu)", dst,
              src, size);
+    if (!paused() && has_variable(dst)) {
+        // Synchronous copies are not recorded, and a replay would thus miss
+        // the update of this memory region.
+        try {
+            jitc_raise("record(): Tried to perform a synchronous memcpy() to "
+                       "the memory region at %p, which is tracked by the "
+                       "recording. This operation cannot be recorded.", dst);
+        } catch (...) {
+            record_exception();
+        }
+    }
     pause_scope pause(this);
     return m_internal->memcpy(dst, src, size);
 }
-- 
2.43.0


From 6ecef30daedfe96d0e9c2f5cf29a93cfd83dceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 30/66] fix: link LLVM tasks before waiting for them
 (LaunchBlocking)

submit_cpu() released the central lock between submitting a task and storing
it in 'jitc_task'. Tasks that another thread submitted in the meantime were
dropped from the chain.
---
 src/llvm_ts.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index ff72ca4..78e9019 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -24,10 +24,9 @@ static void submit_cpu(KernelType type, KernelRecordingMode recording_mode,
         [](uint32_t index, void *payload) { ((Payload *) payload)->f(index); },
         &payload, sizeof(Payload), nullptr, 0);
 
-    if (unlikely(jit_flag(JitFlag::LaunchBlocking))) {
-        unlock_guard guard(state.lock);
-        task_wait(new_task);
-    }
+    // Update 'jitc_task' before the lock is potentially released below.
+    task_release(jitc_task);
+    jitc_task = new_task;
 
     if (unlikely(jit_flag(JitFlag::KernelHistory))) {
         KernelHistoryEntry entry = {};
@@ -42,8 +41,11 @@ static void submit_cpu(KernelType type, KernelRecordingMode recording_mode,
         state.kernel_history.append(entry);
     }
 
-    task_release(jitc_task);
-    jitc_task = new_task;
+    if (unlikely(jit_flag(JitFlag::LaunchBlocking))) {
+        task_retain(new_task);
+        unlock_guard guard(state.lock);
+        task_wait_and_release(new_task);
+    }
 }
 
 /// Temporary scratch space for scheduled tasks
-- 
2.43.0


From 31faab01a81dfc9557e1e1df0ba4df2ea33224e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 31/66] fix: don't lose tasks submitted during a blocking LLVM
 kernel launch

With LaunchBlocking, launch() releases the central lock. barrier() then
replaced 'jitc_task' by a task that does not depend on work submitted by other
threads in the meantime.
---
 src/llvm_ts.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 78e9019..4ec19c1 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -57,18 +57,23 @@ void LLVMThreadState::barrier() {
     // dummy task that has all members of 'scheduled_tasks' as parents. This
     // allows groups of kernel launches to run in parallel, while serializing
     // subsequent groups.
+    //
+    // In blocking mode, launch() temporarily releases the central lock. Other
+    // threads may then update 'jitc_task', hence it must be a parent as well.
 
-    if (scheduled_tasks.size() == 1) {
+    if (scheduled_tasks.size() == 1 && !jit_flag(JitFlag::LaunchBlocking)) {
         task_release(jitc_task);
         jitc_task = scheduled_tasks[0];
     } else {
         jitc_assert(!scheduled_tasks.empty(),
                     "jit_eval(): no tasks generated!");
 
+        if (jitc_task)
+            scheduled_tasks.push_back(jitc_task);
+
         // Insert a barrier task
         Task *new_task = task_submit_dep(nullptr, scheduled_tasks.data(),
                                          (uint32_t) scheduled_tasks.size());
-        task_release(jitc_task);
         for (Task *t : scheduled_tasks)
             task_release(t);
         jitc_task = new_task;
@@ -188,11 +193,6 @@ LLVMThreadState::launch(Kernel kernel, KernelKey & /*key*/,
         nullptr
     );
 
-    if (unlikely(jit_flag(JitFlag::LaunchBlocking))) {
-        unlock_guard guard(state.lock);
-        task_wait(ret_task);
-    }
-
     scheduled_tasks.push_back(ret_task);
 
     if (kernel_history_entry) {
@@ -201,6 +201,12 @@ LLVMThreadState::launch(Kernel kernel, KernelKey & /*key*/,
         state.kernel_history.append(*kernel_history_entry);
     }
 
+    if (unlikely(jit_flag(JitFlag::LaunchBlocking))) {
+        task_retain(ret_task);
+        unlock_guard guard(state.lock);
+        task_wait_and_release(ret_task);
+    }
+
     return ret_task;
 }
 
-- 
2.43.0


From 1739c975c0d4dff40ca78ea9a24cc71f58044234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 32/66] fix: link LLVM kernels of a partially completed
 evaluation

When jitc_eval() failed after launching some of its kernels, these remained
in 'scheduled_tasks' without being part of the task chain: the subsequent
rollback released memory that they were still accessing, and synchronization
did not wait for them.
---
 src/eval.cpp    | 9 +++++++--
 src/llvm_ts.cpp | 5 +----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index ff3aa8c..17911d1 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -925,7 +925,12 @@ static void jitc_schedule_sort() {
 /* Called when an exception interrupts jitc_eval_impl() partway through.
    (E.g. when running out of memory or when a code generation routine throws).
    Release references and memory. */
-static void jitc_eval_rollback(size_t callbacks_baseline) {
+static void jitc_eval_rollback(ThreadState *ts, size_t callbacks_baseline) {
+    // Kernels of preceding groups may already be running. Make subsequent
+    // work (including the memory releases below) wait for them.
+    if (jitc_is_llvm(ts->backend))
+        ts->barrier();
+
     for (ScheduledVariable &sv : schedule) {
         Variable *v = jitc_var(sv.index);
         v->reg_index = 0;
@@ -1002,7 +1007,7 @@ void jitc_eval(ThreadState *ts) {
         try {
             jitc_eval_impl(ts);
         } catch (...) {
-            jitc_eval_rollback(callbacks_baseline);
+            jitc_eval_rollback(ts, callbacks_baseline);
             throw;
         }
     }
diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 4ec19c1..1743275 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -64,10 +64,7 @@ void LLVMThreadState::barrier() {
     if (scheduled_tasks.size() == 1 && !jit_flag(JitFlag::LaunchBlocking)) {
         task_release(jitc_task);
         jitc_task = scheduled_tasks[0];
-    } else {
-        jitc_assert(!scheduled_tasks.empty(),
-                    "jit_eval(): no tasks generated!");
-
+    } else if (!scheduled_tasks.empty()) {
         if (jitc_task)
             scheduled_tasks.push_back(jitc_task);
 
-- 
2.43.0


From b7a92368e2db10a3c2885d1ec11a3bf37ee6349c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 33/66] fix: link LLVM kernels of a partially completed replay

Kernels launched before an error interrupted a replay were not part of the
task chain: subsequent work did not depend on them, and synchronization did
not wait for them.
---
 src/record_ts.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 5016f64..b3c3910 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -2933,6 +2933,9 @@ void jitc_freeze_replay(Recording *recording, const uint32_t *inputs,
         if (record_kernel_history)
             tsr->recording_mode = KernelRecordingMode::Inactive;
         record_kernel_history = false;
+        // Make subsequent work wait for kernels that were already launched
+        if (jitc_is_llvm(recording->backend))
+            thread_state(recording->backend)->barrier();
         throw;
     }
     if (record_kernel_history)
-- 
2.43.0


From b7f1baf0958e22b52fd4141747d0612f033a084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 34/66] fix: don't let boolean reductions write to a dead stack
 frame (LLVM)

jitc_all() and jitc_any() passed the address of a local variable to an
asynchronous reduction. When the subsequent synchronization raised an exception
(ForbidSynchronization), workers later wrote into the released stack frame.
---
 src/util.cpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index abc9ed4..8b0b796 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -172,11 +172,8 @@ void jitc_all_async(JitBackend backend, uint8_t *values, uint32_t size, uint8_t
 
 /// 'All' reduction for boolean arrays
 bool jitc_all(JitBackend backend, uint8_t *values, uint32_t size) {
-    uint8_t buf[4], *tmp;
-    if (jitc_is_gpu(backend))
-        tmp = (uint8_t *) jitc_malloc(backend, 4, /*shared=*/true);
-    else
-        tmp = buf;
+    // Use heap memory, synchronization may fail while the reduction is running
+    uint8_t *tmp = (uint8_t *) jitc_malloc(backend, 4, /*shared=*/true);
 
     jitc_all_async_4(backend, values, size, tmp);
     jitc_sync_thread(thread_state(backend));
@@ -185,27 +182,22 @@ bool jitc_all(JitBackend backend, uint8_t *values, uint32_t size) {
     // that combine with a final AND.
     bool result = (tmp[0] & tmp[1] & tmp[2] & tmp[3]) != 0;
 
-    if (jitc_is_gpu(backend))
-        jitc_free(tmp);
+    jitc_free(tmp);
 
     return result;
 }
 
 /// 'Any' reduction for boolean arrays
 bool jitc_any(JitBackend backend, uint8_t *values, uint32_t size) {
-    uint8_t buf[4], *tmp;
-    if (jitc_is_gpu(backend))
-        tmp = (uint8_t *) jitc_malloc(backend, 4, /*shared=*/true);
-    else
-        tmp = buf;
+    // Use heap memory, synchronization may fail while the reduction is running
+    uint8_t *tmp = (uint8_t *) jitc_malloc(backend, 4, /*shared=*/true);
 
     jitc_any_async_4(backend, values, size, tmp);
     jitc_sync_thread(thread_state(backend));
 
     bool result = (tmp[0] | tmp[1] | tmp[2] | tmp[3]) != 0;
 
-    if (jitc_is_gpu(backend))
-        jitc_free(tmp);
+    jitc_free(tmp);
 
     return result;
 }
-- 
2.43.0


From a8624a3dd3c95e7069acb6a14eb2f27fc73d4f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 35/66] fix: don't let jit_compress() write to a dead stack
 frame (LLVM)

A worker stored the element count into a local variable of the submitting
function. When the subsequent synchronization raised an exception
(ForbidSynchronization), it did so after this stack frame was released.
---
 src/llvm_ts.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 1743275..b3e8200 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -721,7 +721,9 @@ uint32_t LLVMThreadState::compress(const uint8_t *in, uint32_t size,
         blocks     = (size + block_size - 1) / block_size;
     }
 
-    uint32_t count_out = 0;
+    // Use heap memory, synchronization may fail while workers are running
+    uint32_t *count_out = (uint32_t *) jitc_malloc(
+        JitBackend::LLVM, sizeof(uint32_t), /*shared=*/true);
 
     jitc_log(Debug,
             "jit_compress(" DRJIT_PTR " -> " DRJIT_PTR
@@ -758,7 +760,7 @@ uint32_t LLVMThreadState::compress(const uint8_t *in, uint32_t size,
     submit_cpu(
         KernelType::Compress,
         this->recording_mode,
-        [block_size, size, scratch, in, out, &count_out](uint32_t index) {
+        [block_size, size, scratch, in, out, count_out](uint32_t index) {
             uint32_t start = index * block_size,
                      end = std::min(start + block_size, size);
 
@@ -774,7 +776,7 @@ uint32_t LLVMThreadState::compress(const uint8_t *in, uint32_t size,
             }
 
             if (end == size)
-                count_out = accum;
+                *count_out = accum;
         },
 
         size, blocks
@@ -783,7 +785,9 @@ uint32_t LLVMThreadState::compress(const uint8_t *in, uint32_t size,
     jitc_free(scratch);
     jitc_sync_thread(this);
 
-    return count_out;
+    uint32_t count_out_v = *count_out;
+    jitc_free(count_out);
+    return count_out_v;
 }
 
 static ProfilerRegion profiler_region_block_mkperm_phase_1("jit_block_mkperm_phase_1");
-- 
2.43.0


From d448e6ae4df04384520f427495aa76f1ce58b4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 36/66] fix: report failed mmap() calls in aligned_malloc()

mmap() signals failure via MAP_FAILED instead of a null pointer. Host
allocations >= 2 MiB that ran out of memory were therefore considered
successful.
---
 src/malloc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index 2d7b380..2bb01df 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -80,7 +80,7 @@ static void *aligned_malloc(size_t size) {
             madvise(ptr, size, MADV_HUGEPAGE);
 #endif
 
-        return ptr;
+        return ptr != MAP_FAILED ? ptr : nullptr;
     }
 #else
     return _aligned_malloc(size, 64);
-- 
2.43.0


From 54d76a17a7b89f98ed63d1ee5dd765b1bb168993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 37/66] fix: don't count failed allocations in the memory
 statistics

---
 src/malloc.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index 2bb01df..65df90c 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -203,6 +203,11 @@ void* jitc_malloc(JitBackend backend, size_t size, bool shared) {
             jitc_metal_register_buffer(ptr, metal_buf, size);
 #endif
 
+        if (unlikely(!ptr))
+            jitc_raise("jit_malloc(): out of memory! Could not allocate %zu bytes "
+                       "(backend=%s, shared=%i).", size,
+                       jitc_backend_name(backend), (int) shared);
+
         descr = "new allocation";
 
         state.alloc_allocated[(int) backend] += size;
@@ -211,11 +216,6 @@ void* jitc_malloc(JitBackend backend, size_t size, bool shared) {
                      state.alloc_watermark[(int) backend]);
     }
 
-    if (unlikely(!ptr))
-        jitc_raise("jit_malloc(): out of memory! Could not allocate %zu bytes "
-                   "(backend=%s, shared=%i).", size,
-                   jitc_backend_name(backend), (int) shared);
-
     state.alloc_used.emplace((uintptr_t) ptr, ai);
     state.alloc_usage[(int) backend] += size;
 
-- 
2.43.0


From 63189a23888a912aa59ba133ac4945201604838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 38/66] fix: update the memory watermark when migrating
 allocations

---
 src/malloc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index 65df90c..6aa3911 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -337,6 +337,9 @@ void* jitc_malloc_migrate(void *ptr, JitBackend dst_backend, int move) {
             state.alloc_usage[(int) dst_backend] += size;
             state.alloc_allocated[(int) src_backend] -= size;
             state.alloc_allocated[(int) dst_backend] += size;
+            state.alloc_watermark[(int) dst_backend] =
+                std::max(state.alloc_allocated[(int) dst_backend],
+                         state.alloc_watermark[(int) dst_backend]);
             it.value() = alloc_info_encode(size, dst_backend, 0, 0);
             return ptr;
         }
-- 
2.43.0


From b9df18263016376953f9d53fdc8f8d9dd0f25a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 39/66] fix: don't unmap cached allocations that are still in
 use by other threads

---
 src/malloc.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index 6aa3911..25b6390 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -466,6 +466,11 @@ void jitc_flush_malloc_cache(bool warn) {
         alloc_free.swap(state.alloc_free);
     }
 
+    // The previous synchronization temporarily released the main lock. Other
+    // threads may have submitted work in the meantime that still uses buffers,
+    // which were subsequently released and are now part of 'alloc_free'.
+    jitc_sync_all_devices();
+
     size_t trim_count[(int) JitBackend::Count] = { 0 },
            trim_size [(int) JitBackend::Count] = { 0 };
 
-- 
2.43.0


From 7a018825070bfb25f2afa40e6da6bb9e64f14d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 40/66] fix: don't lose deferred frees while waiting for LLVM
 tasks

scoped_reset_thread_state saves and restores ThreadStateBase around a
wait without holding the central lock. Allocations released by tasks or
other threads in the meantime must not be overwritten.
---
 src/internal.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/internal.h b/src/internal.h
index d0f81d7..e6a157e 100644
--- a/src/internal.h
+++ b/src/internal.h
@@ -812,14 +812,6 @@ struct ThreadStateBase {
      */
     int device = 0;
 
-    // Allocations released once their GPU work *completes* (shared buffers,
-    // which the host accesses directly).
-    std::vector<std::pair<uint64_t, void *>> free_later;
-
-    // Device allocations released once the current command buffer is *submitted*
-    // (Metal); a reuse is then ordered behind the prior use in the queue.
-    std::vector<std::pair<uint64_t, void *>> free_next;
-
     /// ---------------------------- CUDA-specific ----------------------------
 
 #if defined(DRJIT_ENABLE_CUDA)
@@ -881,6 +873,14 @@ struct ThreadStateBase {
 
 
 struct ThreadState : public ThreadStateBase {
+    // Allocations released once their GPU work *completes* (shared buffers,
+    // which the host accesses directly).
+    std::vector<std::pair<uint64_t, void *>> free_later;
+
+    // Device allocations released once the current command buffer is *submitted*
+    // (Metal); a reuse is then ordered behind the prior use in the queue.
+    std::vector<std::pair<uint64_t, void *>> free_next;
+
     virtual ~ThreadState();
     ThreadState() = default;
     ThreadState(const ThreadState &other) = default;
-- 
2.43.0


From 56d211f44594d039b518da98c3a178ea2edea72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 41/66] fix: don't reset the state of other threads while
 synchronizing

jitc_sync_all_devices() and jitc_sync_device() wait on behalf of the
thread states of other threads. Changes to them (queued side effects,
masks, etc.) during this time were lost.
---
 src/init.cpp   |  5 +++--
 src/internal.h | 10 +++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/init.cpp b/src/init.cpp
index 0f1860a..85092ae 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -542,9 +542,10 @@ void jitc_sync_thread(ThreadState *ts) {
          *
          * However we don't want the ThreadState dynamic internal
          * variables (e.g. scheduled, side_effects, mask_stack) to
-         * be shared across these tasks
+         * be shared across these tasks. (The variables of the current
+         * thread, as 'ts' may be in use by another one.)
          */
-        scoped_reset_thread_state ts_guard(ts);
+        scoped_reset_thread_state ts_guard(jitc_thread_local().ts_llvm);
         {
             unlock_guard guard(state.lock);
             task_wait(task);
diff --git a/src/internal.h b/src/internal.h
index e6a157e..2b3ec74 100644
--- a/src/internal.h
+++ b/src/internal.h
@@ -1029,12 +1029,16 @@ struct ThreadState : public ThreadStateBase {
 /// RAII helper for scoped reset dynamic thread state
 class scoped_reset_thread_state {
 public:
-    scoped_reset_thread_state(ThreadState* ts) :ts(ts), cached_ts(*ts) {
-        ts->reset_state();
+    scoped_reset_thread_state(ThreadState* ts) : ts(ts) {
+        if (ts) {
+            cached_ts = *ts;
+            ts->reset_state();
+        }
     }
 
     ~scoped_reset_thread_state() {
-        *ts = std::move(cached_ts);
+        if (ts)
+            *ts = std::move(cached_ts);
     }
     scoped_reset_thread_state(const scoped_reset_thread_state &) = delete;
     scoped_reset_thread_state &operator=(const scoped_reset_thread_state &) = delete;
-- 
2.43.0


From 9ab6be9b6b1a3b6e671f0470d7cd0da55fe06a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 42/66] fix: check the status of further CUDA and OptiX calls

---
 src/init.cpp       | 14 +++++++-------
 src/optix_core.cpp |  7 ++++---
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/init.cpp b/src/init.cpp
index 85092ae..ad50f35 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -813,11 +813,11 @@ KernelHistoryEntry *KernelHistory::get() {
         KernelHistoryEntry &k = data[i];
 #if defined(DRJIT_ENABLE_CUDA)
         if (jitc_is_cuda(k.backend)) {
-            cuEventElapsedTime(&k.execution_time,
-                               (CUevent) k.event_start,
-                               (CUevent) k.event_end);
-            cuEventDestroy((CUevent) k.event_start);
-            cuEventDestroy((CUevent) k.event_end);
+            cuda_check(cuEventElapsedTime(&k.execution_time,
+                                          (CUevent) k.event_start,
+                                          (CUevent) k.event_end));
+            cuda_check(cuEventDestroy((CUevent) k.event_start));
+            cuda_check(cuEventDestroy((CUevent) k.event_end));
             k.event_start = k.event_end = 0;
         } else
 #endif
@@ -850,8 +850,8 @@ void KernelHistory::clear() {
         KernelHistoryEntry &k = m_data[i];
 #if defined(DRJIT_ENABLE_CUDA)
         if (jitc_is_cuda(k.backend)) {
-            cuEventDestroy((CUevent) k.event_start);
-            cuEventDestroy((CUevent) k.event_end);
+            cuda_check(cuEventDestroy((CUevent) k.event_start));
+            cuda_check(cuEventDestroy((CUevent) k.event_end));
         } else
 #endif
 #if defined(DRJIT_ENABLE_METAL)
diff --git a/src/optix_core.cpp b/src/optix_core.cpp
index ca328ff..0b82f05 100644
--- a/src/optix_core.cpp
+++ b/src/optix_core.cpp
@@ -280,7 +280,8 @@ bool jitc_optix_compile(ThreadState *ts, const char *buf, size_t buf_size,
         std::unique_ptr<OptixTask[]> new_tasks =
             std::make_unique<OptixTask[]>(max_new_tasks);
         unsigned int new_task_count = 0;
-        optixTaskExecute(task, new_tasks.get(), max_new_tasks, &new_task_count);
+        jitc_optix_check(optixTaskExecute(task, new_tasks.get(), max_new_tasks,
+                                          &new_task_count));
 
         parallel_for(
             drjit::blocked_range<size_t>(0, new_task_count, 1),
@@ -497,9 +498,9 @@ void jitc_optix_launch(ThreadState *ts, const Kernel &kernel,
 
         // Bytes 4..8 used to store optional offset parameter
         if (offset != 0)
-            cuMemsetD32Async(
+            cuda_check(cuMemsetD32Async(
                 (CUdeviceptr) ((uint8_t *) args + sizeof(uint32_t)),
-                offset, 1, ts->stream);
+                offset, 1, ts->stream));
 
         jitc_optix_check(
             optixLaunch(kernel.optix.pipeline, ts->stream, (CUdeviceptr) args,
-- 
2.43.0


From 0746cb4f9de15d3f09214a9f4d34c8ade520eaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 43/66] fix: handle failures of the LLVM ORCv2 initialization

---
 src/llvm_orcv2.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/llvm_orcv2.cpp b/src/llvm_orcv2.cpp
index 485cc68..bdad23b 100644
--- a/src/llvm_orcv2.cpp
+++ b/src/llvm_orcv2.cpp
@@ -32,10 +32,10 @@ bool jitc_llvm_orcv2_init() {
     LLVMTargetRef target_ref;
     char *err_str = nullptr;
     if (LLVMGetTargetFromTriple(jitc_llvm_target_triple, &target_ref, &err_str)) {
-        LLVMDisposeMessage(err_str);
         jitc_log(Warn,
                  "jitc_llvm_init(): could not obtain target, ORCv2 "
                  "initialization failed: %s", err_str);
+        LLVMDisposeMessage(err_str);
         return false;
     }
 
@@ -46,6 +46,8 @@ bool jitc_llvm_orcv2_init() {
             target_ref, jitc_llvm_target_triple, jitc_llvm_target_cpu,
             jitc_llvm_target_features, LLVMCodeGenLevelAggressive, LLVMRelocPIC,
             LLVMCodeModelSmall);
+        if (!tm)
+            jitc_fail("jitc_llvm_init(): could not create a target machine!");
         if (i == 0)
             jitc_llvm_tm = tm;
     }
-- 
2.43.0


From 95574a9878afe8804ab334759f267744797f1b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 44/66] fix: don't use a missing MCJIT engine

---
 src/llvm_mcjit.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/llvm_mcjit.cpp b/src/llvm_mcjit.cpp
index b6680a6..aa27a70 100644
--- a/src/llvm_mcjit.cpp
+++ b/src/llvm_mcjit.cpp
@@ -114,6 +114,8 @@ void jitc_llvm_mcjit_compile(void *llvm_module,
         LLVMDisposeExecutionEngine(m_jitc_llvm_engine);
 
     m_jitc_llvm_engine = jitc_llvm_engine_create((LLVMModuleRef) llvm_module);
+    if (!m_jitc_llvm_engine)
+        jitc_fail("jit_llvm_compile(): could not create the MCJIT engine!");
 
     auto resolve = [&](const char *name) -> uint8_t * {
         uint8_t *p = (uint8_t *) LLVMGetFunctionAddress(m_jitc_llvm_engine, name);
-- 
2.43.0


From 771b6a1f133f993911e5ce2f91bc7c32c661d1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 45/66] fix: don't keep a dangling buffer when the LLVM memory
 manager runs out of memory

---
 src/llvm_memmgr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/llvm_memmgr.cpp b/src/llvm_memmgr.cpp
index ee09ebb..ec42eba 100644
--- a/src/llvm_memmgr.cpp
+++ b/src/llvm_memmgr.cpp
@@ -65,6 +65,8 @@ void jitc_llvm_memmgr_prepare(size_t size) {
     if (jitc_llvm_memmgr_size <= target_size) {
 #if !defined(_WIN32)
         free(jitc_llvm_memmgr_data);
+        jitc_llvm_memmgr_data = nullptr;
+        jitc_llvm_memmgr_size = 0;
         if (posix_memalign((void **) &jitc_llvm_memmgr_data, 4096, target_size))
             jitc_raise("jit_llvm_compile(): could not allocate %zu bytes of memory!", target_size);
 #else
-- 
2.43.0


From ab6a52782973325f69b2ec64aeeffc6f55d6134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 46/66] fix: check for failures while reading and writing the
 kernel cache

---
 src/io.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 56a7f82..aa9b2c0 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -426,7 +426,8 @@ bool jitc_kernel_load(const char *source, uint32_t source_size,
     // relatime's own heuristic, and keeps this essentially free.
     if (!jitc_cache_read_only) {
         auto now = fs::file_time_type::clock::now();
-        if (now - fs::last_write_time(path, ec) > jitc_cache_touch_interval)
+        auto mtime = fs::last_write_time(path, ec);
+        if (!ec && now - mtime > jitc_cache_touch_interval)
             fs::last_write_time(path, now, ec);
     }
 
@@ -504,7 +505,7 @@ bool jitc_kernel_write(const char *source, uint32_t source_size,
     file.close();
 
     // close() reports a failure to flush, so this also covers deferred errors
-    bool success = file.good();
+    bool success = header.compressed_size != 0 && file.good();
 
     if (!success)
         jitc_log(Warn, "jit_kernel_write(): I/O error while writing compiled "
-- 
2.43.0


From bf7fdad995968a75332dca013baca48d010f8bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 47/66] fix: use malloc_check() for the remaining host
 allocations

---
 src/init.cpp      | 2 +-
 src/io.cpp        | 2 +-
 src/llvm_core.cpp | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/init.cpp b/src/init.cpp
index ad50f35..8629487 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -628,7 +628,7 @@ static void jitc_rebuild_prefix(ThreadState *ts) {
         size_t size = 1;
         for (const char *s : ts->prefix_stack)
             size += strlen(s) + 1;
-        ts->prefix = (char *) malloc(size);
+        ts->prefix = (char *) malloc_check(size);
         char *p = ts->prefix;
 
         for (const char *s : ts->prefix_stack) {
diff --git a/src/io.cpp b/src/io.cpp
index aa9b2c0..a5a1507 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -395,7 +395,7 @@ bool jitc_kernel_load(const char *source, uint32_t source_size,
                     "jit_kernel_load(): misaligned relocation table!");
 
         kernel.llvm.n_reloc = header.reloc_size / sizeof(void *);
-        kernel.llvm.reloc = (void **) malloc(header.reloc_size);
+        kernel.llvm.reloc = (void **) malloc_check(header.reloc_size);
         for (uint32_t i = 0; i < kernel.llvm.n_reloc; ++i)
             kernel.llvm.reloc[i] = (uint8_t *) kernel.data + reloc[i];
 
diff --git a/src/llvm_core.cpp b/src/llvm_core.cpp
index 752f121..9256d9d 100644
--- a/src/llvm_core.cpp
+++ b/src/llvm_core.cpp
@@ -274,9 +274,9 @@ void jitc_llvm_update_strings() {
     }
 
     jitc_llvm_ones_str =
-        (char **) malloc(sizeof(char *) * (uint32_t) VarType::Count);
+        (char **) malloc_check(sizeof(char *) * (uint32_t) VarType::Count);
     jitc_llvm_ones_bit_str =
-        (char **) malloc(sizeof(char *) * (uint32_t) VarType::Count);
+        (char **) malloc_check(sizeof(char *) * (uint32_t) VarType::Count);
 
     for (uint32_t i = 0; i < (uint32_t) VarType::Count; ++i) {
         VarType vt = (VarType) i;
-- 
2.43.0


From 871636a4db29e7aeb15dba45537c81fe8ccc7889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 48/66] fix: use a valid comparison in the step function of
 integer cooperative vectors (LLVM)

---
 src/llvm_coop_vec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/llvm_coop_vec.cpp b/src/llvm_coop_vec.cpp
index dd5d2c8..ec5d709 100644
--- a/src/llvm_coop_vec.cpp
+++ b/src/llvm_coop_vec.cpp
@@ -209,7 +209,7 @@ void jitc_llvm_render_coop_vec(const Variable *v, const Variable *a0,
                     case JitOp::FMin: op = is_float ? "minnum" : (is_sint ? "smin" : "umin"); is_intrinsic = true; break;
                     case JitOp::Max:
                     case JitOp::FMax: op = is_float ? "maxnum" : (is_sint ? "smax" : "umax"); is_intrinsic = true; break;
-                    case JitOp::Step: op = is_float ? "fcmp olt" : "icmp lt"; break;
+                    case JitOp::Step: op = is_float ? "fcmp olt" : (is_sint ? "icmp slt" : "icmp ult"); break;
                     default:
                         jitc_fail("CoopVecBinaryOp: unsupported operation!");
                 }
-- 
2.43.0


From 8d986fbfc6c0ff81effc6883dde8e3cd386e452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 49/66] fix: don't register array writes for value numbering
 before they are complete

---
 src/array.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/array.cpp b/src/array.cpp
index 4ab7c6e..9e0fd0e 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -361,7 +361,10 @@ uint32_t jitc_array_write(uint32_t target, uint32_t offset, uint32_t value,
     // write, a redundant array copy would need to be made.
 
     jitc_new_scope(backend);
-    uint32_t op = jitc_var_new(v, false);
+
+    // Don't share this node: its last dependency is only assigned below, and the
+    // scope makes it unique in any case.
+    uint32_t op = jitc_var_new(v, true);
     jitc_new_scope(backend);
 
     // Create a new storage region to store the modified array. It is
-- 
2.43.0


From 45a2ac273f8a4acaa88d0b1141a302dba2c11be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 50/66] fix: check the right operands after evaluating pending
 side effects

---
 src/var.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 9ab33a8..ccba4bf 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1277,7 +1277,7 @@ uint32_t jitc_var_new_node_3(JitBackend backend, VarKind kind, VarType vt,
             jitc_raise_dirty_error(a1);
 
         v2 = jitc_var(a2);
-        if (v1->is_dirty())
+        if (v2->is_dirty())
             jitc_raise_dirty_error(a2);
     }
 
@@ -1316,11 +1316,11 @@ uint32_t jitc_var_new_node_4(JitBackend backend, VarKind kind, VarType vt,
             jitc_raise_dirty_error(a1);
 
         v2 = jitc_var(a2);
-        if (v1->is_dirty())
+        if (v2->is_dirty())
             jitc_raise_dirty_error(a2);
 
         v3 = jitc_var(a3);
-        if (v1->is_dirty())
+        if (v3->is_dirty())
             jitc_raise_dirty_error(a3);
     }
 
-- 
2.43.0


From 492df8c00f3521dc08c6fe855dc42146a61207e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 51/66] fix: execute pending writes before reading the contents
 of a variable

---
 src/coop_vec.cpp | 6 +++---
 src/var.cpp      | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/coop_vec.cpp b/src/coop_vec.cpp
index 20200ea..717cb00 100644
--- a/src/coop_vec.cpp
+++ b/src/coop_vec.cpp
@@ -171,7 +171,7 @@ uint32_t jitc_coop_vec_load(uint32_t buffer, uint32_t offset, uint32_t length) {
     }
 
     void *p = nullptr;
-    Ref tmp = steal(jitc_var_data(buffer, false, &p));
+    Ref tmp = steal(jitc_var_data(buffer, true, &p));
     Ref buf_ptr = steal(jitc_var_pointer(backend, p, tmp, 0));
 
     Ref mask = steal(jitc_var_bool(backend, true));
@@ -498,7 +498,7 @@ uint32_t jitc_coop_vec_matvec(uint32_t A_index,
     Ref a_ptr, b_ptr;
     {
         void *p = nullptr;
-        Ref tmp = steal(jitc_var_data(A_index, false, &p));
+        Ref tmp = steal(jitc_var_data(A_index, true, &p));
 
         a_vt = (VarType) jitc_var(tmp)->type;
         a_ptr = steal(jitc_var_pointer(backend, p, tmp, 0));
@@ -521,7 +521,7 @@ uint32_t jitc_coop_vec_matvec(uint32_t A_index,
 
     if (b_index && b_descr) {
         void *p = nullptr;
-        Ref tmp = steal(jitc_var_data(b_index, false, &p));
+        Ref tmp = steal(jitc_var_data(b_index, true, &p));
 
         b_vt = (VarType) jitc_var(tmp)->type;
         b_ptr = steal(jitc_var_pointer(backend, p, tmp, 0));
diff --git a/src/var.cpp b/src/var.cpp
index ccba4bf..e91a394 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1994,11 +1994,11 @@ uint32_t jitc_var_shrink(uint32_t index, size_t size) {
         result = jitc_var_literal(backend, vt, &v->literal, size, 0);
     } else {
         void *dst_addr = nullptr;
-        Ref dst = steal(jitc_var_data(index, false, &dst_addr));
+        Ref dst = steal(jitc_var_data(index, true, &dst_addr));
 
+        // 'dst' may differ from 'index' if the latter is uninitialized
         result = jitc_var_mem_map(backend, vt, dst_addr, size, false);
-        jitc_var(result)->dep[3] = index;
-        jitc_var_inc_ref(index);
+        jitc_var(result)->dep[3] = dst.release();
     }
 
     jitc_log(Debug, "jit_var_shrink(): %s r%u[%zu] = shrink(r%u)",
@@ -2922,7 +2922,7 @@ std::pair<uint32_t, uint32_t> jitc_var_expand(uint32_t index, ReduceOp op) {
     v = jitc_var(index);
     if (!v->is_literal() || v->literal != identity) {
         void *src_addr = nullptr;
-        Ref src = steal(jitc_var_data(index, false, &src_addr));
+        Ref src = steal(jitc_var_data(index, true, &src_addr));
         jitc_memcpy_async(backend, dst_addr, src_addr,
                           size * tsize);
     }
-- 
2.43.0


From ce4a4f892936988c044501fe1f1950a3fa8533d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 52/66] fix: execute pending side effects before using a
 variable as operand

---
 src/array.cpp      | 10 +++++++++-
 src/call.cpp       |  3 +++
 src/cond.cpp       |  6 ++++++
 src/coop_vec.cpp   |  1 +
 src/cuda_tex.cpp   |  1 +
 src/loop.cpp       |  2 ++
 src/op.cpp         |  8 ++++++--
 src/optix_core.cpp |  1 +
 src/var.cpp        | 11 +++++++++++
 src/var.h          |  3 +++
 10 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/array.cpp b/src/array.cpp
index 9e0fd0e..159fc9a 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -33,6 +33,7 @@ uint32_t jitc_array_create(JitBackend backend, VarType vt, size_t size,
     v.array_length = (uint16_t) length;
 
     if (pred) {
+        jitc_var_flush(pred);
         v.dep[0] = pred;
         jitc_var_inc_ref(pred);
     }
@@ -67,6 +68,10 @@ uint32_t jitc_array_init(uint32_t target, uint32_t value) {
 
     #undef fail_if
 
+    jitc_var_flush(value);
+    vt = jitc_var(target);
+    vv = jitc_var(value);
+
     Variable v2;
     v2.size = (uint32_t) std::max(vv->size, vt->size);
     v2.kind = (uint32_t) VarKind::ArrayInit;
@@ -168,14 +173,17 @@ uint32_t jitc_array_read(uint32_t source, uint32_t offset, uint32_t mask_) {
         }
     }
 
-    if (vo->is_dirty()) {
+    if (vo->is_dirty() || vm->is_dirty()) {
         jitc_eval(thread_state((JitBackend) vs->backend));
 
         vs = jitc_var(source);
         vo = jitc_var(offset);
+        vm = jitc_var(mask);
 
         if (vo->is_dirty())
             jitc_raise_dirty_error(offset);
+        if (vm->is_dirty())
+            jitc_raise_dirty_error(mask);
     }
 
     Variable v;
diff --git a/src/call.cpp b/src/call.cpp
index f5dd591..d27913c 100644
--- a/src/call.cpp
+++ b/src/call.cpp
@@ -682,6 +682,9 @@ uint32_t jitc_var_call_getter(VarType type, uint32_t count,
         }
     }
 
+    jitc_var_flush(index);
+    jitc_var_flush(mask);
+
     // Apply the active mask and broadcast the size, as 'jit_var_gather' would.
     uint32_t size = std::max(jitc_var(index)->size, jitc_var(mask)->size);
     Ref mask_2 = steal(jitc_var_mask_apply(mask, size));
diff --git a/src/cond.cpp b/src/cond.cpp
index d23e516..9b079e1 100644
--- a/src/cond.cpp
+++ b/src/cond.cpp
@@ -156,6 +156,12 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
             continue;
         }
 
+        if (v_t->is_dirty()) {
+            for (size_t j = 0; j < i; ++j)
+                jitc_var_dec_ref(rv_out[j]);
+            jitc_raise_dirty_error(i_t);
+        }
+
         uint32_t l1 = size, l2 = v_t->size, l3 = v_f->size,
                  lm = std::max(std::max(l1, l2), l3);
 
diff --git a/src/coop_vec.cpp b/src/coop_vec.cpp
index 717cb00..e21ce4e 100644
--- a/src/coop_vec.cpp
+++ b/src/coop_vec.cpp
@@ -60,6 +60,7 @@ uint32_t jitc_coop_vec_pack(uint32_t n, const uint32_t *in) {
     for (uint32_t i = 0; i < n; ++i) {
         if (in[i] == 0)
             jitc_raise("jit_coop_vec_pack(): argument %u is uninitialized!", i);
+        jitc_var_flush(in[i]);
     }
 
     const Variable *arg_v = jitc_var(in[0]);
diff --git a/src/cuda_tex.cpp b/src/cuda_tex.cpp
index 7ebbc8c..a90b620 100644
--- a/src/cuda_tex.cpp
+++ b/src/cuda_tex.cpp
@@ -686,6 +686,7 @@ void jitc_cuda_tex_bilerp_fetch(const void *handle,
     size_t ndim = tex.ndim;
     VarType out_type = VarType::Float32;
     Variable v = jitc_cuda_tex_check(out_type, ndim, pos);
+    jitc_var_flush(active);
 
     for (size_t ti = 0; ti < tex.n_textures; ++ti) {
         for (size_t ch = 0; ch < tex.channels(ti); ++ch) {
diff --git a/src/loop.cpp b/src/loop.cpp
index 3f27f1d..98d6899 100644
--- a/src/loop.cpp
+++ b/src/loop.cpp
@@ -129,6 +129,8 @@ void jitc_var_loop_update_inner_in(uint32_t loop, uint32_t *indices) {
 uint32_t jitc_var_loop_cond(uint32_t loop, uint32_t active) {
     LoopData *ld = (LoopData *) jitc_var(loop)->data;
 
+    jitc_var_flush(active);
+
     Variable *loop_start_v = jitc_var(ld->loop_start),
              *active_v = jitc_var(active);
 
diff --git a/src/op.cpp b/src/op.cpp
index 5d59f0d..4d08c66 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2150,16 +2150,20 @@ uint32_t jitc_var_gather(uint32_t src_, uint32_t index, uint32_t mask) {
             msg = " [elided, always masked]";
         }
 
-        /// Make sure that the src and index variables doesn't have pending side effects
-        if (!result && unlikely(index_v->is_dirty() || src_v->is_dirty())) {
+        /// Make sure that the operands don't have pending side effects
+        if (!result && unlikely(index_v->is_dirty() || src_v->is_dirty() ||
+                                mask_v->is_dirty())) {
             jitc_eval(thread_state(src_info.backend));
             if (jitc_var(index)->is_dirty())
                 jitc_raise_dirty_error(index);
             if (jitc_var(src)->is_dirty())
                 jitc_raise_dirty_error(src);
+            if (jitc_var(mask)->is_dirty())
+                jitc_raise_dirty_error(mask);
 
             src_v = jitc_var(src);
             index_v = jitc_var(index);
+            mask_v = jitc_var(mask);
         }
     }
 
diff --git a/src/optix_core.cpp b/src/optix_core.cpp
index 0b82f05..16a4321 100644
--- a/src/optix_core.cpp
+++ b/src/optix_core.cpp
@@ -586,6 +586,7 @@ void jitc_optix_ray_trace(uint32_t n_args, uint32_t *args,
         if ((VarType) jitc_var(reorder_hint)->type != VarType::UInt32)
             jitc_raise("jit_optix_ray_trace(): 'reorder_hint' must be an "
                        "unsigned 32-bit array.");
+        jitc_var_flush(reorder_hint);
     }
 
     // Potentially apply any masks on the mask stack
diff --git a/src/var.cpp b/src/var.cpp
index e91a394..3f7934c 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1449,6 +1449,17 @@ const char *jitc_var_str(uint32_t index) {
     return var_buffer.get();
 }
 
+void jitc_var_flush(uint32_t index) {
+    const Variable *v = jitc_var(index);
+    if (likely(!v->is_dirty()))
+        return;
+
+    jitc_eval(thread_state(v->backend));
+
+    if (jitc_var(index)->is_dirty())
+        jitc_raise_dirty_error(index);
+}
+
 void jitc_raise_dirty_error(uint32_t index) {
     jitc_raise(
         "Variable r%u remains dirty despite an attempt to evaluate it.\n"
diff --git a/src/var.h b/src/var.h
index e68d12f..e075009 100644
--- a/src/var.h
+++ b/src/var.h
@@ -330,6 +330,9 @@ extern void jitc_var_shadow_setup_narrow(uint32_t se_node, uint32_t target);
 /// Generate an informative error message about variables that remain dirty following evaluation
 extern void jitc_raise_dirty_error(uint32_t index);
 
+/// Execute pending side effects targeting the variable \c index (if any)
+extern void jitc_var_flush(uint32_t index);
+
 /// Reverse the order of a JIT variable
 extern uint32_t jitc_var_reverse(uint32_t index);
 
-- 
2.43.0


From 761df1104a2e805a66520804b392695545edb575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:46 +0000
Subject: [PATCH 53/66] fix: compute the size of large arrays in 64-bit
 arithmetic

Several byte counts and offsets were computed as products of 32-bit
quantities, so that arrays of 4 GiB and more were only copied, migrated
or allocated partially.
---
 src/cuda_ts.cpp   | 14 +++++++-------
 src/llvm_ts.cpp   | 12 ++++++------
 src/metal_ts.h    |  2 +-
 src/record_ts.cpp |  4 ++--
 src/var.cpp       |  4 ++--
 5 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/cuda_ts.cpp b/src/cuda_ts.cpp
index eeb9cbe..5d236e6 100644
--- a/src/cuda_ts.cpp
+++ b/src/cuda_ts.cpp
@@ -211,7 +211,7 @@ void CUDAThreadState::block_reduce(VarType vt, ReduceOp op, uint32_t size,
 
     uint32_t tsize = type_size[(int) vt];
     if (block_size == 1) {
-        memcpy_async(out, in, size * tsize);
+        memcpy_async(out, in, (size_t) size * tsize);
         return;
     }
 
@@ -337,7 +337,7 @@ void CUDAThreadState::block_reduce(VarType vt, ReduceOp op, uint32_t size,
     if (chunks_per_block == 1)
         params.out = out;
     else
-        params.out = jitc_malloc(JitBackend::CUDA, chunk_count * tsize);
+        params.out = jitc_malloc(JitBackend::CUDA, (size_t) chunk_count * tsize);
 
     {
         scoped_set_context guard(context);
@@ -550,7 +550,7 @@ void CUDAThreadState::block_prefix_reduce(VarType vt, ReduceOp op,
             uint64_t ident = jitc_reduce_identity(vt, op);
             memset_async(out, size, tsize, &ident);
         } else if (in != out) {
-            memcpy_async(out, in, size * tsize);
+            memcpy_async(out, in, (size_t) size * tsize);
         }
         return;
     }
@@ -664,7 +664,7 @@ void CUDAThreadState::block_prefix_reduce(VarType vt, ReduceOp op,
     if (chunks_per_block > 1) {
         uint32_t scratch_size = chunk_count * 2,
                  vsize = type_size[(int) vts];
-        params.scratch = jitc_malloc(JitBackend::CUDA, scratch_size * vsize);
+        params.scratch = jitc_malloc(JitBackend::CUDA, (size_t) scratch_size * vsize);
         uint64_t z = 0;
         memset_async(params.scratch, scratch_size, vsize, &z);
     } else {
@@ -1067,9 +1067,9 @@ void CUDAThreadState::coop_vec_pack(uint32_t count, const void *in_,
         uint32_t tsize = type_size[(int) id.dtype];
 
         if (id.cols == 1) {
-            cuda_check(cuMemcpyAsync((CUdeviceptr) (out + od.offset * tsize),
-                                     (CUdeviceptr) (in + id.offset * tsize),
-                                     id.size * tsize,
+            cuda_check(cuMemcpyAsync((CUdeviceptr) (out + (size_t) od.offset * tsize),
+                                     (CUdeviceptr) (in + (size_t) id.offset * tsize),
+                                     (size_t) id.size * tsize,
                                      stream));
         } else {
             uint32_t type_id = jitc_optix_coop_vec_type_id(id.dtype);
diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index b3e8200..de4ded8 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -318,7 +318,7 @@ void LLVMThreadState::block_reduce(VarType vt, ReduceOp op, uint32_t size,
 
     void *buf = out;
     if (chunks_per_block > 1) {
-        buf = jitc_malloc(JitBackend::LLVM, tsize * chunk_count);
+        buf = jitc_malloc(JitBackend::LLVM, (size_t) tsize * chunk_count);
 
         jitc_log(Debug,
                  "jit_block_reduce(" DRJIT_PTR " -> " DRJIT_PTR
@@ -372,7 +372,7 @@ void LLVMThreadState::block_prefix_reduce(VarType vt, ReduceOp op,
             uint64_t ident = jitc_reduce_identity(vt, op);
             memset_async(out, size, tsize, &ident);
         } else if (in != out) {
-            memcpy_async(out, in, size * tsize);
+            memcpy_async(out, in, (size_t) size * tsize);
         }
         return;
     }
@@ -412,7 +412,7 @@ void LLVMThreadState::block_prefix_reduce(VarType vt, ReduceOp op,
 
     void *scratch = nullptr;
     if (chunks_per_block > 1) {
-        scratch = jitc_malloc(JitBackend::LLVM, tsize * chunk_count);
+        scratch = jitc_malloc(JitBackend::LLVM, (size_t) tsize * chunk_count);
 
         // Launch a block_reduce within block_prefix_reduce. We need to access to its
         // intermediate state, which is why the kernel is called directly here
@@ -501,7 +501,7 @@ void LLVMThreadState::reduce_dot(VarType type, const void *ptr_1,
 
     void *target = out;
     if (blocks > 1)
-        target = jitc_malloc(JitBackend::LLVM, blocks * tsize);
+        target = jitc_malloc(JitBackend::LLVM, (size_t) blocks * tsize);
 
     Reduction2 reduction = jitc_reduce_dot_create(type);
     submit_cpu(
@@ -510,7 +510,7 @@ void LLVMThreadState::reduce_dot(VarType type, const void *ptr_1,
         [block_size, size, tsize, ptr_1, ptr_2, reduction, target](uint32_t index) {
             reduction(ptr_1, ptr_2, index * block_size,
                       std::min((index + 1) * block_size, size),
-                      (uint8_t *) target + index * tsize);
+                      (uint8_t *) target + (size_t) index * tsize);
         },
 
         size,
@@ -1126,7 +1126,7 @@ void LLVMThreadState::coop_vec_pack(uint32_t count, const void *in,
 
         void run(uint32_t index) {
             const MatrixDescr &id = in_d[index], &od = out_d[index];
-            uint32_t tsize = type_size[(int) id.dtype];
+            size_t tsize = type_size[(int) id.dtype];
 
             if (id.stride == id.cols && od.stride == od.cols) {
                 std::memcpy(
diff --git a/src/metal_ts.h b/src/metal_ts.h
index 24486c4..38c1c60 100644
--- a/src/metal_ts.h
+++ b/src/metal_ts.h
@@ -121,7 +121,7 @@ struct MetalThreadState final : ThreadState {
 
         for (uint32_t i = 0; i < count; ++i) {
             const MatrixDescr &id = in_d[i], &od = out_d[i];
-            uint32_t tsize = type_size[(int) id.dtype];
+            size_t tsize = type_size[(int) id.dtype];
 
             if (id.stride == id.cols && od.stride == od.cols) {
                 // Both densely packed: one large blit copy.
diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index b3c3910..482ae87 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -173,7 +173,7 @@ struct ReplayVariable {
     /// Initializes the \ref ReplayVariable from a function input.
     void init_from_input(Variable *input_variable) {
         data       = input_variable->data;
-        alloc_size = type_size[input_variable->type] * input_variable->size;
+        alloc_size = (size_t) type_size[input_variable->type] * input_variable->size;
         data_size = alloc_size;
     }
 
@@ -1598,7 +1598,7 @@ int Recording::replay_compress(Operation &op) {
     uint32_t out_size =
         ts->compress((uint8_t *) in_rv.data, size, (uint32_t *) out_rv.data);
 
-    out_rv.data_size = out_size * type_size[(uint32_t) out_info.vtype];
+    out_rv.data_size = out_size * (size_t) type_size[(uint32_t) out_info.vtype];
 
     return true;
 }
diff --git a/src/var.cpp b/src/var.cpp
index 3f7934c..e53bd61 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2158,7 +2158,7 @@ uint32_t jitc_var_migrate(uint32_t src_index, JitBackend dst_backend) {
             src_backend = JitBackend::None;
         }
 
-        size_t size = type_size[v->type] * v->size;
+        size_t size = (size_t) type_size[v->type] * v->size;
         dst_ptr = jitc_malloc(dst_backend, size);
         jitc_memcpy_async(backend, dst_ptr, src_ptr, size);
     } else {
@@ -2935,7 +2935,7 @@ std::pair<uint32_t, uint32_t> jitc_var_expand(uint32_t index, ReduceOp op) {
         void *src_addr = nullptr;
         Ref src = steal(jitc_var_data(index, true, &src_addr));
         jitc_memcpy_async(backend, dst_addr, src_addr,
-                          size * tsize);
+                          (size_t) size * tsize);
     }
 
     Variable *v2 = jitc_var(dst);
-- 
2.43.0


From 22d0cd2637a9ba26adcfef7ebbf7f5c5495f5d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 54/66] fix: release the LLVM backend when its initialization
 fails

jitc_llvm_shutdown() did nothing when the initialization had failed: resources
acquired until then leaked, and no later jit_init() call (also following
jit_shutdown()) attempted to initialize the backend again. A host without a
suitable vector ISA continued to initialize the backend.
---
 src/llvm_core.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/llvm_core.cpp b/src/llvm_core.cpp
index 9256d9d..e1aa3de 100644
--- a/src/llvm_core.cpp
+++ b/src/llvm_core.cpp
@@ -167,6 +167,7 @@ bool jitc_llvm_init() {
                  "jit_llvm_init(): no suitable vector ISA found, shutting "
                  "down LLVM backend..");
         jitc_llvm_shutdown();
+        return false;
     }
 
     if (jitc_llvm_api_has_orcv2() && jitc_llvm_orcv2_init()) {
@@ -212,7 +213,11 @@ bool jitc_llvm_init() {
 }
 
 void jitc_llvm_shutdown() {
-    if (!jitc_llvm_init_success)
+    // Permit another attempt, also when the initialization failed
+    jitc_llvm_init_attempted = false;
+
+    // Nothing to do if the initialization did not reach this point
+    if (!jitc_llvm_target_triple)
         return;
 
     jitc_log(Info, "jit_llvm_shutdown()");
@@ -229,6 +234,7 @@ void jitc_llvm_shutdown() {
         jitc_llvm_disasm_ctx = nullptr;
     }
 
+    jitc_llvm_target_triple = nullptr;
     jitc_llvm_target_cpu = nullptr;
     jitc_llvm_target_features = nullptr;
     jitc_llvm_vector_width = 0;
@@ -252,7 +258,6 @@ void jitc_llvm_shutdown() {
     jitc_llvm_u32_width_str = nullptr;
 
     jitc_llvm_init_success = false;
-    jitc_llvm_init_attempted = false;
 
     jitc_llvm_api_shutdown();
 }
-- 
2.43.0


From b669557afd08b6a73397e4dddd86290076a8fc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:20 +0000
Subject: [PATCH 55/66] fix: release the function table of the aggregation
 kernel

---
 src/cuda_core.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cuda_core.cpp b/src/cuda_core.cpp
index f18d759..eab04b6 100644
--- a/src/cuda_core.cpp
+++ b/src/cuda_core.cpp
@@ -572,6 +572,7 @@ void jitc_cuda_shutdown() {
     Z(jitc_cuda_compress_small);
     Z(jitc_cuda_compress_large);
     Z(jitc_cuda_compress_large_init);
+    Z(jitc_cuda_aggregate);
 
     for (uint32_t k = 0; k < (uint32_t) VarType::Count; k++) {
         Z(jitc_cuda_poke[k]);
-- 
2.43.0


From cb5e9cbbcf3fa655208f5942fac4decd316f1a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:19 +0000
Subject: [PATCH 56/66] fix: reset the memory usage watermark when shutting
 down

---
 src/malloc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index 25b6390..4ff8dc2 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -594,4 +594,7 @@ void jitc_malloc_shutdown() {
             }
         }
     }
+
+    // The peak memory usage doesn't carry over to a later jit_init()
+    jitc_malloc_clear_statistics();
 }
-- 
2.43.0


From 0814d3d269ab5942f59579f21801944f4f21faa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 57/66] fix: complete the LLVM bitcast of cooperative vectors

The format string lacked a dollar sign and thus consumed fewer arguments than
it was given, which crashed code generation when an unevaluated cooperative
vector was resized.
---
 src/llvm_coop_vec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/llvm_coop_vec.cpp b/src/llvm_coop_vec.cpp
index ec5d709..670a02b 100644
--- a/src/llvm_coop_vec.cpp
+++ b/src/llvm_coop_vec.cpp
@@ -269,7 +269,7 @@ void jitc_llvm_render_coop_vec(const Variable *v, const Variable *a0,
 
         case VarKind::Bitcast:
                 for (uint32_t i =  0; i < v->array_length; ++i)
-                    fmt("    $v_$u = bitcast $V_u to $T\n", v, i, a0, i, v);
+                    fmt("    $v_$u = bitcast $V_$u to $T\n", v, i, a0, i, v);
             break;
 
         case VarKind::CoopVecCast: {
-- 
2.43.0


From ff281f8ffd3fc0a3dc86f228250aef7ce25e4e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 58/66] fix: drop an unused argument when loading large OptiX
 vectors

The formatting routine aborts when it is given an argument that the format
string does not consume.
---
 src/optix_coop_vec.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/optix_coop_vec.cpp b/src/optix_coop_vec.cpp
index db050bf..5df4829 100644
--- a/src/optix_coop_vec.cpp
+++ b/src/optix_coop_vec.cpp
@@ -285,8 +285,7 @@ void jitc_optix_render_coop_vec(const Variable *v, const Variable *a0,
                     reg_count);
             } else {
                 declare_buffer("dst", v);
-                fmt("        call (), _optix_vector_load_ptr, (%type, %size, %src, %dst);\n",
-                    v->reg_index);
+                put("        call (), _optix_vector_load_ptr, (%type, %size, %src, %dst);\n");
                 copy_from_buffer("dst", v);
             }
             break;
-- 
2.43.0


From b0477decdb7a31fd7bd43c70557b7964409293dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 59/66] fix: keep the string buffer null-terminated

Appending a number and deleting trailing commas left the buffer without a
terminator at its new end.
---
 src/strbuf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/strbuf.cpp b/src/strbuf.cpp
index 4f4df8e..c3ccac4 100644
--- a/src/strbuf.cpp
+++ b/src/strbuf.cpp
@@ -278,6 +278,8 @@ void StringBuffer::delete_trailing_commas() {
         else
             break;
     }
+    if (m_start != m_end)
+        *m_cur = '\0';
 }
 
 StringBuffer &StringBuffer::operator=(StringBuffer &&b) {
@@ -356,24 +358,28 @@ void StringBuffer::put_u32(uint32_t value) {
     if (unlikely(!m_cur || m_cur + MAXSIZE_U32 >= m_end))
         m_cur = expand(m_cur, MAXSIZE_U32);
     put_u32_unchecked(value);
+    *m_cur = '\0';
 }
 
 void StringBuffer::put_u64(uint64_t value) {
     if (unlikely(!m_cur || m_cur + MAXSIZE_U64 >= m_end))
         m_cur = expand(m_cur, MAXSIZE_U64);
     put_u64_unchecked(value);
+    *m_cur = '\0';
 }
 
 void StringBuffer::put_x32(uint32_t value) {
     if (unlikely(!m_cur || m_cur + MAXSIZE_X32 >= m_end))
         m_cur = expand(m_cur, MAXSIZE_X32);
     put_x32_unchecked(value);
+    *m_cur = '\0';
 }
 
 void StringBuffer::put_x64(uint64_t value) {
     if (unlikely(!m_cur || m_cur + MAXSIZE_X64 >= m_end))
         m_cur = expand(m_cur, MAXSIZE_X64);
     put_x64_unchecked(value);
+    *m_cur = '\0';
 }
 
 void StringBuffer::put_u32_unchecked(uint32_t value) { m_cur = w_u32(m_cur, value); }
-- 
2.43.0


From 5d73043ca0784f87a43ca6be80b89b12bff7b4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 60/66] fix: check the capacity when naming a unique callable

The unchecked append of its hash could exceed the capacity of the string
buffer. This also supplies the missing definition of StringBuffer::put_q64().
---
 src/cuda_eval.cpp | 4 ++--
 src/strbuf.cpp    | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cuda_eval.cpp b/src/cuda_eval.cpp
index 85431ae..75d32e8 100644
--- a/src/cuda_eval.cpp
+++ b/src/cuda_eval.cpp
@@ -1926,8 +1926,8 @@ void jitc_var_call_assemble_cuda(CallData *call, uint32_t call_reg,
     } else {
         XXH128_hash_t hash = call->inst_hash[0];
         put("func_unique_");
-        buffer.put_q64_unchecked(hash.high64);
-        buffer.put_q64_unchecked(hash.low64);
+        buffer.put_q64(hash.high64);
+        buffer.put_q64(hash.low64);
         put(", (");
     }
     if (call->use_index) {
diff --git a/src/strbuf.cpp b/src/strbuf.cpp
index c3ccac4..c4b3a69 100644
--- a/src/strbuf.cpp
+++ b/src/strbuf.cpp
@@ -382,6 +382,13 @@ void StringBuffer::put_x64(uint64_t value) {
     *m_cur = '\0';
 }
 
+void StringBuffer::put_q64(uint64_t value) {
+    if (unlikely(!m_cur || m_cur + MAXSIZE_X64 >= m_end))
+        m_cur = expand(m_cur, MAXSIZE_X64);
+    put_q64_unchecked(value);
+    *m_cur = '\0';
+}
+
 void StringBuffer::put_u32_unchecked(uint32_t value) { m_cur = w_u32(m_cur, value); }
 
 void StringBuffer::put_u64_unchecked(uint64_t value) { m_cur = w_u64(m_cur, value); }
-- 
2.43.0


From 635f1cc8270baaec2278331c229388cb2be3ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 61/66] fix: pass 32-bit arguments where the format expects
 them

The variadic formatting routines read these arguments as 32-bit integers.
---
 src/cuda_eval.cpp     | 2 +-
 src/llvm_array.cpp    | 4 ++--
 src/llvm_coop_vec.cpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cuda_eval.cpp b/src/cuda_eval.cpp
index 75d32e8..71a2351 100644
--- a/src/cuda_eval.cpp
+++ b/src/cuda_eval.cpp
@@ -1719,7 +1719,7 @@ static void jitc_cuda_render_reorder(const Variable *v, const Variable *key) {
             "    mov.u32 $v_hint_bits, $u;\n"
             "    call (), _optix_hitobject_reorder, ($v, $v_hint_bits);\n",
             v,
-            v, v->literal,
+            v, (uint32_t) v->literal,
             key, v);
     }
 }
diff --git a/src/llvm_array.cpp b/src/llvm_array.cpp
index b694b2d..8948961 100644
--- a/src/llvm_array.cpp
+++ b/src/llvm_array.cpp
@@ -105,7 +105,7 @@ void jitc_llvm_render_array_read(Variable *v, Variable *source, Variable *mask,
                 v, v, source->reg_index, v);
         } else {
             fmt("    $v_3 = getelementptr inbounds $m, ptr %arr_$u, i32 $u\n",
-                v, v, source->reg_index, v->literal * jitc_llvm_vector_width);
+                v, v, source->reg_index, (uint32_t) v->literal * jitc_llvm_vector_width);
         }
 
         if (mask_safe_to_ignore(mask)) {
@@ -242,7 +242,7 @@ void jitc_llvm_render_array_write(Variable *v, Variable *target,
                 v, v, target_buffer, v);
         } else {
             fmt("    $v_3 = getelementptr inbounds $m, ptr %arr_$u, i32 $u\n",
-                v, v, target_buffer, v->literal * jitc_llvm_vector_width);
+                v, v, target_buffer, (uint32_t) v->literal * jitc_llvm_vector_width);
         }
 
         if (mask_safe_to_ignore(mask)) {
diff --git a/src/llvm_coop_vec.cpp b/src/llvm_coop_vec.cpp
index 670a02b..613bb64 100644
--- a/src/llvm_coop_vec.cpp
+++ b/src/llvm_coop_vec.cpp
@@ -16,7 +16,7 @@
 
 void jitc_llvm_render_coop_vec_unpack(const Variable *v, const Variable *a0) {
     put("    ; coop_vec_unpack\n");
-    fmt("    $v = bitcast $V_$u to $T\n", v, a0, v->literal, v);
+    fmt("    $v = bitcast $V_$u to $T\n", v, a0, (uint32_t) v->literal, v);
 }
 
 
-- 
2.43.0


From fcba32771355f20b7bd52a68acb2b294615e8671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 62/66] fix: check the capacity when naming a unique Metal
 callable

The unchecked append of its hash could exceed the capacity of the string
buffer.
---
 src/metal_eval.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metal_eval.cpp b/src/metal_eval.cpp
index 65c6215..af9f2b0 100644
--- a/src/metal_eval.cpp
+++ b/src/metal_eval.cpp
@@ -1677,8 +1677,8 @@ void jitc_var_call_assemble_metal(CallData *call, uint32_t call_reg,
         // Single target: call the (inline-able) callable directly by name.
         XXH128_hash_t hash = call->inst_hash[0];
         put("func_");
-        buffer.put_q64_unchecked(hash.high64);
-        buffer.put_q64_unchecked(hash.low64);
+        buffer.put_q64(hash.high64);
+        buffer.put_q64(hash.low64);
         put("(");
         put_args();
         put(");\n");
-- 
2.43.0


From c1c8d1ab5bac065849697f68802774563c4b45ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:32 +0000
Subject: [PATCH 63/66] fix: look up variables again when reordering threads

The evaluation and the creation of nodes may relocate the variable table.
---
 src/reorder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reorder.cpp b/src/reorder.cpp
index cc77a1d..52a869b 100644
--- a/src/reorder.cpp
+++ b/src/reorder.cpp
@@ -55,6 +55,7 @@ void jitc_reorder(uint32_t key, uint32_t num_bits, uint32_t n_values,
     // Guarantee that the reordering is assembled after anything that precedes this operation
     jitc_new_scope(JitBackend::CUDA);
 
+    v_key = jitc_var(key);
     uint32_t reorder = jitc_var_new_node_1(
         JitBackend::CUDA, VarKind::ReorderThread, VarType::Void, size, symbolic,
         key, v_key, num_bits);
@@ -71,11 +72,12 @@ void jitc_reorder(uint32_t key, uint32_t num_bits, uint32_t n_values,
         // that it will only be assembled once, despite it not being directly
         // used when assembling a `Bitcast` node.
         Variable *v_value = jitc_var(values[i]);
+        v_reorder = jitc_var(reorder);
         out[i] = jitc_var_new_node_2(JitBackend::CUDA, VarKind::Bitcast,
                                      (VarType) v_value->type, v_value->size,
                                      v_value->symbolic, values[i], v_value,
                                      reorder, v_reorder);
     }
 
-    jitc_var_dec_ref(reorder, v_reorder);
+    jitc_var_dec_ref(reorder);
 }
-- 
2.43.0


From 6c9f6487f40e06cb540f96bab1b094879c233a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:32 +0000
Subject: [PATCH 64/66] fix: look up a variable again after filling its
 migrated copy

Submitting the operation may release the lock, which enables other threads to
relocate the variable table.
---
 src/var.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index e53bd61..a84978c 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2118,8 +2118,10 @@ uint32_t jitc_var_migrate(uint32_t src_index, JitBackend dst_backend) {
                         jitc_fail("jit_var_migrate(): invalid element size!");
                 }
             } else {
+                uint64_t literal = v->literal;
                 jitc_memset_async(dst_backend, ptr, (uint32_t) size,
-                                  type_size[v->type], &v->literal);
+                                  type_size[v->type], &literal);
+                v = jitc_var(src_index);
             }
         }
 
-- 
2.43.0


From 3bec78f36b10da7cdb685c82f0420770f32754fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:32 +0000
Subject: [PATCH 65/66] fix: do not access a variable after creating another
 one

jit_var_block_reduce() of a literal read from the variable table after it could
have been relocated.
---
 src/var.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index a84978c..09ffd2a 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2524,11 +2524,11 @@ uint32_t jitc_var_block_reduce(ReduceOp op, uint32_t index, uint32_t block_size,
                 break; // Nothing to do for the other reducion types
         }
 
-        Ref result = steal(jitc_var_literal((JitBackend) v->backend, (VarType) v->type, &value_header, reduced, 0));
+        Ref result = steal(jitc_var_literal(backend, vt, &value_header, reduced, 0));
 
         if (reduced * block_size != size) {
 
-            Ref trailer = steal(jitc_var_literal((JitBackend) v->backend, (VarType) v->type, &value_trailer, reduced, 0)),
+            Ref trailer = steal(jitc_var_literal(backend, vt, &value_trailer, reduced, 0)),
                 counter = steal(jitc_var_counter(backend, reduced, true)),
                 limit = steal(jitc_var_u32(backend, reduced - 1)),
                 mask = steal(jitc_var_lt(counter, limit));
-- 
2.43.0


From 2146024fb8d661b6acbd252993ed0c139f7349b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:32 +0000
Subject: [PATCH 66/66] fix: look up the mask again after evaluating the target
 of a scatter

The evaluation may relocate the variable table.
---
 src/op.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/op.cpp b/src/op.cpp
index 4d08c66..f29a49d 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -3144,6 +3144,7 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
         bool raise_dirty_error = !jit_flag(JitFlag::SymbolicScope);
         jitc_var_eval(target, raise_dirty_error);
         target_v = jitc_var(target);
+        mask_v = jitc_var(mask);
     }
 
     if (!jitc_can_scatter_reduce(backend, vt, op))
-- 
2.43.0

