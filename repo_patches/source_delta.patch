From f859c35a1a45e2a8b6d4b5190f1038632542f430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 001/112] fix: do not skip a Borrow because a previous request
 restricted to a mask failed

The timestamp of the last unsuccessful borrow was also updated by Acquire and
Borrow calls restricted to a CPU mask (and by Acquire in the spread-ifempty
affinity, which does not look for empty NUMA nodes), so a later unrestricted
Borrow returned DLB_NOUPDT while there were idle CPUs.
---
 src/LB_policies/lewi_mask.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 0e1430c..5f29c96 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -633,12 +633,17 @@ int lewi_mask_AcquireCpusInMask(const subprocess_descriptor_t *spd, int ncpus,
         const cpu_set_t *mask) {
     lewi_info_t *lewi_info = spd->lewi_info;
     bool async = spd->options.mode == MODE_ASYNC;
-    int64_t *last_borrow = async ? NULL : &lewi_info->last_borrow;
 
     /* Construct a CPU array based on cpus_priority_array and mask (if present) */
     array_cpuid_t *cpu_subset = get_cpu_subset(spd);
     cpu_array_and(cpu_subset, &lewi_info->cpus_priority_array, mask);
 
+    /* The timestamp of the last unsuccessful borrow is only meaningful if all
+     * the CPUs that this process may borrow are considered */
+    bool all_cpus = cpu_subset->count == lewi_info->cpus_priority_array.count
+        && spd->options.lewi_affinity != LEWI_AFFINITY_SPREAD_IFEMPTY;
+    int64_t *last_borrow = async || !all_cpus ? NULL : &lewi_info->last_borrow;
+
     /* Provide a number of requested CPUs only if needed */
     int *requested_ncpus = ncpus > 0 ? &ncpus : NULL;
 
@@ -684,12 +689,16 @@ int lewi_mask_BorrowCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t
 int lewi_mask_BorrowCpusInMask(const subprocess_descriptor_t *spd, int ncpus, const cpu_set_t *mask) {
     lewi_info_t *lewi_info = spd->lewi_info;
     bool async = spd->options.mode == MODE_ASYNC;
-    int64_t *last_borrow = async ? NULL : &lewi_info->last_borrow;
 
     /* Construct a CPU array based on cpus_priority_array and mask (if present) */
     array_cpuid_t *cpu_subset = get_cpu_subset(spd);
     cpu_array_and(cpu_subset, &lewi_info->cpus_priority_array, mask);
 
+    /* The timestamp of the last unsuccessful borrow is only meaningful if all
+     * the CPUs that this process may borrow are considered */
+    bool all_cpus = cpu_subset->count == lewi_info->cpus_priority_array.count;
+    int64_t *last_borrow = async || !all_cpus ? NULL : &lewi_info->last_borrow;
+
     /* Provide a number of requested CPUs only if needed */
     int *requested_ncpus = ncpus > 0 ? &ncpus : NULL;
 
-- 
2.43.0


From 96687a4381c0b4656398fa7afb4a60d08d2bdaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 002/112] fix: take the timestamp of an unsuccessful borrow
 while holding the lock

A CPU lent between the unlock and the timestamp was considered older than the
unsuccessful borrow, and the process did not see it until the next lend.
---
 src/LB_comm/shmem_cpuinfo.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 35cdc36..e17fbbf 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1623,13 +1623,14 @@ int shmem_cpuinfo__borrow_ncpus_from_cpu_subset(
                 error = DLB_SUCCESS;
             }
         }
-    }
-    shmem_unlock(shm_handler);
 
-    /* Update timestamp if borrow did not succeed */
-    if (last_borrow != NULL && error != DLB_SUCCESS) {
-        *last_borrow = get_time_in_ns();
+        /* Update timestamp if borrow did not succeed. It must be done inside the
+         * lock, otherwise a CPU lent in between would be ignored by the next call */
+        if (last_borrow != NULL && error != DLB_SUCCESS) {
+            *last_borrow = get_time_in_ns();
+        }
     }
+    shmem_unlock(shm_handler);
 
     return error;
 }
-- 
2.43.0


From 682c7b21a577666388dada35119070aa95046b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 003/112] fix: do not assign a disabled CPU to a pending
 request

A process lending a CPU that is not owned by anyone caused the CPU to be given
to any process with a pending request.
---
 src/LB_comm/shmem_cpuinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index e17fbbf..81633d4 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -221,7 +221,7 @@ static pid_t find_new_guest(cpuinfo_t *cpuinfo) {
     if (cpuinfo->state == CPU_BUSY) {
         /* If CPU is claimed, ignore requests and assign owner */
         new_guest = cpuinfo->owner;
-    } else if (shdata->flags.queues_enabled) {
+    } else if (cpuinfo->state == CPU_LENT && shdata->flags.queues_enabled) {
         /* Pop first PID in queue that is eligible for this CPU */
         for (pid_t *it = queue_pid_t_front(&cpuinfo->requests);
                 it != NULL && new_guest == NOBODY;
-- 
2.43.0


From 04763151462df2d76e205eb20b2f8cdbc2da74b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:36 +0000
Subject: [PATCH 004/112] fix: drop the pending requests of a process that
 lends CPUs due to its max parallelism

In asynchronous mode, a CPU lent by DLB_SetMaxParallelism could be given back to
the very same process if it had a pending request, and then be disabled: the
process kept the CPU in the shared memory without using it.
---
 src/LB_comm/shmem_cpuinfo.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 81633d4..59d8839 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1897,9 +1897,24 @@ int shmem_cpuinfo__update_max_parallelism(pid_t pid, unsigned int max,
     int error = DLB_SUCCESS;
     unsigned int owned_count = 0;
     unsigned int guested_count = 0;
+    unsigned int held_count = 0;
     SMALL_ARRAY(cpuid_t, guested_cpus, node_size);
     shmem_lock(shm_handler);
     {
+        // If some CPU has to be lent, previous requests must not take it back
+        for (cpuid_t cpuid=0; cpuid<node_size; ++cpuid) {
+            const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
+            if (cpuinfo->owner == pid || cpuinfo->guest == pid) {
+                ++held_count;
+            }
+        }
+        if (max < held_count && shdata->flags.queues_enabled) {
+            queue_lewi_mask_request_t_remove(&shdata->lewi_mask_requests, pid);
+            for (cpuid_t cpuid=0; cpuid<node_size; ++cpuid) {
+                queue_pid_t_remove(&shdata->node_info[cpuid].requests, pid);
+            }
+        }
+
         for (cpuid_t cpuid=0; cpuid<node_size; ++cpuid) {
             const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
             if (cpuinfo->owner == pid) {
-- 
2.43.0


From 546780400485fd18aaf6bd5277f3addef087b69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 005/112] fix: allow to retry DLB_Init, and to call
 DLB_Finalize, after a failed DLB_Init

A failed DLB_Init left the process marked as initialized: DLB_Finalize crashed,
DLB_Init always returned DLB_ERR_INIT, and the process could remain registered
in the procinfo shared memory.
---
 src/LB_core/DLB_kernel.c | 7 ++++++-
 src/apis/DLB_interface.c | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 2b23cc7..a4b8e3f 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -149,7 +149,12 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
         // Initialize cpuinfo
         error = shmem_cpuinfo__init(spd->id, spd->options.preinit_pid,
                 &spd->process_mask, spd->options.shm_key, spd->options.lewi_color);
-        if (error != DLB_SUCCESS) return error;
+        if (error != DLB_SUCCESS) {
+            // cpuinfo has already been finalized, undo also the procinfo registration
+            shmem_procinfo__finalize(spd->id, /* return_stolen */ false,
+                    spd->options.shm_key);
+            return error;
+        }
     } else if (spd->options.talp) {
         // If mask is not needed but TALP is enabled, we still need to
         // initialize shmem_procinfo but allowing CPU sharing
diff --git a/src/apis/DLB_interface.c b/src/apis/DLB_interface.c
index d748ca4..e95ccc9 100644
--- a/src/apis/DLB_interface.c
+++ b/src/apis/DLB_interface.c
@@ -44,7 +44,12 @@
 int DLB_Init(int ncpus, const_dlb_cpu_set_t mask, const char *dlb_args) {
     spd_enter_dlb(thread_spd);
     if (__sync_bool_compare_and_swap(&thread_spd->dlb_initialized, false, true) ) {
-        return Initialize(thread_spd, getpid(), ncpus, mask, dlb_args);
+        int error = Initialize(thread_spd, getpid(), ncpus, mask, dlb_args);
+        if (error < DLB_SUCCESS) {
+            // There is nothing to finalize, and DLB_Init may be retried
+            thread_spd->dlb_initialized = false;
+        }
+        return error;
     } else {
         return DLB_ERR_INIT;
     }
-- 
2.43.0


From a0c77bce3fd52de5e3168a55c145c8c552379174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:46 +0000
Subject: [PATCH 006/112] fix: reclaim the CPUs guested by other processes when
 an asynchronous process starts

In asynchronous mode, a process registering CPUs that were in use by another
process (lent post-mortem by their previous owner) started to use them, but the
guest was never asked to leave.
---
 src/LB_policies/lewi_mask.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 5f29c96..b21c135 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -303,6 +303,14 @@ int lewi_mask_Init(subprocess_descriptor_t *spd) {
     /* Enable request queues only in async mode */
     if (spd->options.mode == MODE_ASYNC) {
         shmem_cpuinfo__enable_request_queues();
+
+        /* Some CPU of this process may be guested by other process (e.g., if it was
+         * lent post-mortem by a previous owner), which will only leave if asked to */
+        array_cpuinfo_task_t *tasks = get_tasks(spd);
+        int error = shmem_cpuinfo__reclaim_all(spd->id, tasks);
+        if (error == DLB_SUCCESS || error == DLB_NOTED) {
+            resolve_cpuinfo_tasks(spd, tasks);
+        }
     }
 
     return DLB_SUCCESS;
-- 
2.43.0


From 4a169f7098a3a342db1fd0adf088a354d7522b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:23 +0000
Subject: [PATCH 007/112] fix: DLB_ReturnCpuMask must not return DLB_NOUPDT if
 some CPU was returned

---
 src/LB_comm/shmem_cpuinfo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 59d8839..e384092 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1736,7 +1736,8 @@ int shmem_cpuinfo__return_cpu_mask(pid_t pid, const cpu_set_t *mask,
                 cpuid >= 0;
                 cpuid = mu_get_next_cpu(&cpus_to_return, cpuid)) {
             int local_error = return_cpu(pid, cpuid, tasks);
-            error = (error < 0) ? error : local_error;
+            // DLB_SUCCESS if at least one CPU is returned
+            error = (error == DLB_NOUPDT) ? local_error : error;
         }
     }
     shmem_unlock(shm_handler);
-- 
2.43.0


From 4524bf35937991413e4af015f076a03e6a1a12d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:10 +0000
Subject: [PATCH 008/112] fix: update the timestamp of the last lent CPU when a
 CPU is returned

With SMT, a returned CPU may become idle instead of being given to its owner, or
make eligible the rest of the CPUs in the core. Processes with a previous
unsuccessful Borrow did not see them.
---
 src/LB_comm/shmem_cpuinfo.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index e384092..238e128 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1666,6 +1666,9 @@ static int return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks
     // Possibly clear CPU from occupies cores set
     update_occupied_cores(cpuinfo->owner, cpuinfo->id);
 
+    // The CPU, or the rest of the CPUs in the core, may now be borrowed
+    update_shmem_timestamp();
+
     // current subprocess to disable cpu
     array_cpuinfo_task_t_push(
             tasks,
-- 
2.43.0


From fdae6659b7b01edaf0d0479ca49cd8d116be6ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:06 +0000
Subject: [PATCH 009/112] fix: remove the pending requests of a process that
 disables asynchronous LeWI

A process that used its initial number of CPUs kept its request in the queue
after DLB_Disable, so it was given CPUs while it was disabled.
---
 src/LB_comm/shmem_lewi_async.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_comm/shmem_lewi_async.c b/src/LB_comm/shmem_lewi_async.c
index e47f070..d543a16 100644
--- a/src/LB_comm/shmem_lewi_async.c
+++ b/src/LB_comm/shmem_lewi_async.c
@@ -719,6 +719,9 @@ int shmem_lewi_async__reset(pid_t pid, unsigned int *new_ncpus,
     {
         if (process->initial_ncpus != process->current_ncpus) {
             error = reset_process(process, requests, nreqs, maxreqs, prev_requested);
+        } else {
+            /* Nothing to update, but the process must not receive more CPUs */
+            queue_lewi_reqs_remove(&shdata->requests, pid);
         }
 
         idle_cpus = shdata->idle_cpus;
-- 
2.43.0


From 8be9c4b3c7b614a4125af0ecee6e20b69de51b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:06 +0000
Subject: [PATCH 010/112] fix: do not restore twice the saved request when
 asynchronous LeWI is enabled

---
 src/LB_policies/lewi_async.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/LB_policies/lewi_async.c b/src/LB_policies/lewi_async.c
index 8487d06..896e9d8 100644
--- a/src/LB_policies/lewi_async.c
+++ b/src/LB_policies/lewi_async.c
@@ -130,10 +130,13 @@ int lewi_async_Enable(const subprocess_descriptor_t *spd) {
 
     /* Restore previously requested CPUs */
     lewi_info_t *lewi_info = spd->lewi_info;
-    if (lewi_info->prev_requested > 0) {
-        error = lewi_async_AcquireCpus(spd, lewi_info->prev_requested);
-        if (error == DLB_SUCCESS || error == DLB_NOTED) {
-            lewi_info->prev_requested = 0;
+    unsigned int prev_requested = lewi_info->prev_requested;
+    if (prev_requested > 0) {
+        /* AcquireCpus would add the saved request to the new one */
+        lewi_info->prev_requested = 0;
+        error = lewi_async_AcquireCpus(spd, prev_requested);
+        if (error != DLB_SUCCESS && error != DLB_NOTED) {
+            lewi_info->prev_requested = prev_requested;
         }
     }
 
-- 
2.43.0


From 1daa0e3823191975828311a32071c0813b009e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:06 +0000
Subject: [PATCH 011/112] fix: update atomically the number of idle CPUs in
 classic LeWI

A failed compare-and-swap in acquireCpus still added the idle CPUs, and
checkIdleCpus computed the new value from several reads.
---
 src/LB_comm/comm_lend_light.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/LB_comm/comm_lend_light.c b/src/LB_comm/comm_lend_light.c
index f14ef41..d708c42 100644
--- a/src/LB_comm/comm_lend_light.c
+++ b/src/LB_comm/comm_lend_light.c
@@ -130,7 +130,16 @@ int acquireCpus(int current_cpus) {
 //I don't care if there aren't enough cpus
 
     if((__sync_sub_and_fetch (&(shdata->idleCpus), cpus)>0) && greedy) {
-        cpus+=__sync_val_compare_and_swap(&(shdata->idleCpus), shdata->idleCpus, 0);
+        /* Take all the idle CPUs, but only those this process actually removes */
+        int idle = shdata->idleCpus;
+        while (idle > 0) {
+            int prev = __sync_val_compare_and_swap(&(shdata->idleCpus), idle, 0);
+            if (prev == idle) {
+                cpus += idle;
+                break;
+            }
+            idle = prev;
+        }
     }
     add_event(IDLE_CPUS_EVENT, shdata->idleCpus);
 
@@ -146,23 +155,22 @@ that are assigned
 int checkIdleCpus(int myCpus, int maxResources) {
     verbose(VB_SHMEM, "Checking idle CPUS... %d", shdata->idleCpus);
     int cpus;
-    int aux;
+    //read only once, the value may be modified by other processes
+    int idle=*(volatile int*)&shdata->idleCpus;
 //WARNING//
     //if more CPUS than the availables are used release some
-    if ((shdata->idleCpus < 0) && (myCpus>defaultCPUS) ) {
-        aux=shdata->idleCpus;
-        cpus=min_int(abs(aux), myCpus-defaultCPUS);
-        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), aux, aux+cpus)) {
+    if ((idle < 0) && (myCpus>defaultCPUS) ) {
+        cpus=min_int(abs(idle), myCpus-defaultCPUS);
+        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), idle, idle+cpus)) {
             myCpus-=cpus;
         }
 
         //if there are idle CPUS use them
-    } else if( shdata->idleCpus > 0) {
-        aux=shdata->idleCpus;
-        if(aux>maxResources) { aux=maxResources; }
+    } else if( idle > 0) {
+        cpus=min_int(idle, maxResources);
 
-        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), shdata->idleCpus, shdata->idleCpus-aux)) {
-            myCpus+=aux;
+        if(__sync_bool_compare_and_swap(&(shdata->idleCpus), idle, idle-cpus)) {
+            myCpus+=cpus;
         }
     }
     add_event(IDLE_CPUS_EVENT, shdata->idleCpus);
-- 
2.43.0


From b0bb3acd7f16e76057fdff5c68577d97c070f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:06 +0000
Subject: [PATCH 012/112] fix: do not lose the idle CPUs when greedy LeWI is
 disabled

---
 src/LB_policies/lewi.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index e19ea93..161d284 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -83,7 +83,11 @@ int lewi_EnableDLB(const subprocess_descriptor_t *spd) {
 int lewi_DisableDLB(const subprocess_descriptor_t *spd) {
     if (enabled && !single) {
         verbose(VB_MICROLB, "ResetDLB");
-        acquireCpus(myCPUS);
+        int cpus = acquireCpus(myCPUS);
+        if (cpus > default_cpus) {
+            /* greedy mode may acquire more CPUs than the default ones */
+            releaseCpus(cpus - default_cpus);
+        }
         setThreads_Lend_light(&spd->pm, default_cpus);
     }
     enabled = 0;
-- 
2.43.0


From 014549103423b7118400e98e8029b64c495be3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:17 +0000
Subject: [PATCH 013/112] fix: account the CPUs lent or borrowed by a process
 that finalizes classic LeWI

Otherwise, the CPUs that the process had lent could be borrowed for ever, and
the ones it had borrowed were lost.
---
 src/LB_policies/lewi.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index 161d284..6b8516b 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -70,6 +70,11 @@ int lewi_Init(subprocess_descriptor_t *spd) {
 }
 
 int lewi_Finalize(subprocess_descriptor_t *spd) {
+    /* The CPUs lent or borrowed by this process are no longer accounted */
+    if (myCPUS != default_cpus) {
+        releaseCpus(myCPUS - default_cpus);
+        myCPUS = default_cpus;
+    }
     finalize_comm();
     return DLB_SUCCESS;
 }
-- 
2.43.0


From 502ec344c4dbb1003baac92be8baa911c3d03bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 014/112] fix: do not keep the max parallelism of a previous
 initialization in classic LeWI

---
 src/LB_policies/lewi.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LB_policies/lewi.c b/src/LB_policies/lewi.c
index 6b8516b..cf60f83 100644
--- a/src/LB_policies/lewi.c
+++ b/src/LB_policies/lewi.c
@@ -65,6 +65,7 @@ int lewi_Init(subprocess_descriptor_t *spd) {
     }
 
     enabled = 1;
+    max_parallelism = 0;
 
     return DLB_SUCCESS;
 }
-- 
2.43.0


From 7e4b20db0524089260fb1ae3a264368bbf2edd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:37 +0000
Subject: [PATCH 015/112] fix: do not reset the idle CPUs of classic LeWI while
 another process attaches

---
 src/LB_comm/comm_lend_light.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/LB_comm/comm_lend_light.c b/src/LB_comm/comm_lend_light.c
index d708c42..57301e6 100644
--- a/src/LB_comm/comm_lend_light.c
+++ b/src/LB_comm/comm_lend_light.c
@@ -77,6 +77,8 @@ void ConfigShMem(int defCPUS, int is_greedy, const char *shmem_key) {
     // Shared memory creation
     open_shmem(shmem_key);
 
+    /* The lock prevents other processes from attaching until the values are set */
+    shmem_lock(shm_handler);
     if (__sync_fetch_and_add(&shdata->attached_nprocs, 1) == 0) {
         // Initialize shared memory if this is the 1st process attached
         verbose(VB_SHMEM, "setting values to the shared mem");
@@ -87,6 +89,7 @@ void ConfigShMem(int defCPUS, int is_greedy, const char *shmem_key) {
 
         verbose(VB_SHMEM, "Finished setting values to the shared mem");
     }
+    shmem_unlock(shm_handler);
 }
 
 static void close_shmem(void) {
-- 
2.43.0


From a30865a8d4b66477adf09878112dcfe2fa78d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 016/112] fix: do not abort if a process without LeWI polls
 DROM after its CPU is stolen and acquired

---
 src/LB_comm/shmem_cpuinfo.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 238e128..bc482df 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2032,15 +2032,15 @@ void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict proces
             } else {
                 if (cpuinfo->guest == pid
                         && cpuinfo->state == CPU_BUSY) {
-                    /* 'tasks' may be NULL if LeWI is disabled, but if the process
-                     * is guesting an external CPU, LeWI should be enabled */
-                    if (unlikely(tasks == NULL)) {
-                        shmem_unlock(shm_handler);
-                        fatal("tasks pointer is NULL in %s. Please report bug at %s",
-                                __func__, PACKAGE_BUGREPORT);
-                    }
                     // The CPU has been either stolen or reclaimed,
                     // return it anyway
+                    if (tasks == NULL) {
+                        // LeWI is disabled, there are no requests nor tasks to resolve:
+                        // the new owner already took the CPU in its own update
+                        cpuinfo->guest = cpuinfo->owner;
+                        update_occupied_cores(cpuinfo->owner, cpuid);
+                        continue;
+                    }
                     return_cpu(pid, cpuid, tasks);
                 }
             }
-- 
2.43.0


From 8446b98f872c3770a277316df362ceade3ace69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 017/112] fix: do not move again the CPUs of a process that
 sets its own pending mask

---
 src/LB_comm/shmem_procinfo.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index e990399..005dece 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -833,8 +833,14 @@ static int shmem_procinfo__setprocessmask_self(const cpu_set_t *mask, dlb_drom_f
     pinfo_t *process = my_pinfo;
     shmem_lock(shm_handler);
     {
-        if (!process->dirty || CPU_EQUAL(mask, &process->future_process_mask)) {
+        if (!process->dirty) {
             error = set_new_mask(process, mask, false /* sync */, return_stolen, free_cpu_mask);
+        } else if (CPU_EQUAL(mask, &process->future_process_mask)) {
+            /* CPUs were already acquired and freed when the future mask was set */
+            if (free_cpu_mask != NULL) {
+                mu_substract(free_cpu_mask, &process->current_process_mask, mask);
+            }
+            error = DLB_SUCCESS;
         } else {
             error = DLB_ERR_PDIRTY;
         }
-- 
2.43.0


From a670d500e7d8dc0ab504590007011db491ec21ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:46 +0000
Subject: [PATCH 018/112] fix: do not leave a process pre-registered if
 DLB_DROM_PreInit fails

---
 src/apis/DLB_interface_drom.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/apis/DLB_interface_drom.c b/src/apis/DLB_interface_drom.c
index c1dff78..508ac51 100644
--- a/src/apis/DLB_interface_drom.c
+++ b/src/apis/DLB_interface_drom.c
@@ -103,7 +103,13 @@ int DLB_DROM_PreInit(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags,
     }
 
     int error = shmem_procinfo_ext__preinit(pid, mask, flags);
-    error = error ? error : shmem_cpuinfo_ext__preinit(pid, mask, flags);
+    if (error == DLB_SUCCESS) {
+        error = shmem_cpuinfo_ext__preinit(pid, mask, flags);
+        if (error < DLB_SUCCESS) {
+            /* Revert the registration of the process */
+            shmem_procinfo_ext__postfinalize(pid, flags & DLB_RETURN_STOLEN);
+        }
+    }
     return error;
 }
 
-- 
2.43.0


From 30077e08ef6148604a34982d9380ba41185b4e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:15 +0000
Subject: [PATCH 019/112] fix: do not pre-register twice the same process in
 DROM

---
 src/LB_comm/shmem_procinfo.c | 43 +++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 005dece..80229b3 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -497,33 +497,36 @@ int shmem_procinfo_ext__preinit(pid_t pid, const cpu_set_t *mask, dlb_drom_flags
             if (shdata->process_info[p].pid == pid) {
                 // PID already registered
                 error = DLB_ERR_INIT;
+                process = NULL;
                 break;
-            } else if (shdata->process_info[p].pid == NOBODY) {
+            } else if (process == NULL
+                    && shdata->process_info[p].pid == NOBODY) {
+                // First empty spot
                 process = &shdata->process_info[p];
-                *process = (const pinfo_t){
-                    .pid = pid,
-                    .preregistered = true};
-
-                // Register process mask into the system
-                if (!steal) {
-                    // If no stealing, register as usual
-                    error = register_mask(process, mask);
-                } else {
-                    // Otherwise, steal CPUs if necessary
-                    error = set_new_mask(process, mask, sync, return_stolen, NULL);
-                }
-                if (error) {
-                    // Release shared memory spot
-                    process->pid = NOBODY;
-                    break;
-                }
+            }
+        }
+
+        if (process != NULL) {
+            *process = (const pinfo_t){
+                .pid = pid,
+                .preregistered = true};
 
+            // Register process mask into the system
+            if (!steal) {
+                // If no stealing, register as usual
+                error = register_mask(process, mask);
+            } else {
+                // Otherwise, steal CPUs if necessary
+                error = set_new_mask(process, mask, sync, return_stolen, NULL);
+            }
+            if (error) {
+                // Release shared memory spot
+                process->pid = NOBODY;
+            } else {
                 // Set process initial values
                 memcpy(&process->current_process_mask, mask, sizeof(cpu_set_t));
                 memcpy(&process->future_process_mask, mask, sizeof(cpu_set_t));
                 process->dirty = false;
-
-                break;
             }
         }
     }
-- 
2.43.0


From 73557791c4054537fcfdaf64deb5c28ae6740d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:05 +0000
Subject: [PATCH 020/112] fix: return the CPUs of an unsuccessful synchronous
 steal only to the process they were stolen from

---
 src/LB_comm/shmem_procinfo.c | 39 ++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 80229b3..b0a64f8 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -31,6 +31,7 @@
 #include "support/types.h"
 #include "support/mytime.h"
 #include "support/mask_utils.h"
+#include "support/small_array.h"
 #include "LB_core/spd.h"
 
 #include <sched.h>
@@ -1390,6 +1391,13 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
     cpu_set_t cpus_left_to_steal;
     memcpy(&cpus_left_to_steal, mask, sizeof(cpu_set_t));
 
+    // Process whose CPU is stolen, per CPU, in case we need to roll back
+    SMALL_ARRAY(pid_t, victims, max_cpus);
+    int c;
+    for (c = 0; c < max_cpus; ++c) {
+        victims[c] = NOBODY;
+    }
+
     // Iterate per process, steal in batch
     int p;
     for (p = 0; p < max_processes; ++p) {
@@ -1406,6 +1414,11 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
                         mu_substract(&victim->future_process_mask,
                                 &victim->current_process_mask, &target_cpus);
                         CPU_OR(&victim->stolen_cpus, &victim->stolen_cpus, &target_cpus);
+                        for (c = 0; c < max_cpus; ++c) {
+                            if (CPU_ISSET(c, &target_cpus)) {
+                                victims[c] = victim->pid;
+                            }
+                        }
                         verbose(VB_DROM, "CPUs %s have been removed from process %d",
                                 mu_to_str(mask), victim->pid);
                     }
@@ -1480,21 +1493,25 @@ static int steal_mask(pinfo_t* new_owner, const cpu_set_t *mask, bool sync, bool
 
     if (error && !dry_run) {
         // Some CPUs could not be stolen, roll everything back
-        for (p = 0; p < max_processes; ++p) {
-            pinfo_t *victim = &shdata->process_info[p];
-            if (victim != new_owner && victim->pid != NOBODY) {
-                cpu_set_t cpus_to_return;
-                CPU_AND(&cpus_to_return, &victim->stolen_cpus, mask);
-                if (CPU_COUNT(&cpus_to_return) > 0) {
-                    // warning: we may return some CPU to a wrong process
-                    // if more than one contains that CPU as stolen
-                    CPU_OR(&victim->future_process_mask, &victim->future_process_mask,
-                            &cpus_to_return);
-                    mu_substract(&victim->stolen_cpus, &victim->stolen_cpus, &cpus_to_return);
+        for (c = 0; c < max_cpus; ++c) {
+            if (victims[c] == NOBODY) continue;
+
+            // Return the CPU only to the process we have stolen it from
+            for (p = 0; p < max_processes; ++p) {
+                pinfo_t *victim = &shdata->process_info[p];
+                if (victim->pid == victims[c]
+                        && CPU_ISSET(c, &victim->stolen_cpus)) {
+                    CPU_SET(c, &victim->future_process_mask);
+                    CPU_CLR(c, &victim->stolen_cpus);
                     victim->dirty = !CPU_EQUAL(
                             &victim->current_process_mask, &victim->future_process_mask);
+                    break;
                 }
             }
+            if (p == max_processes) {
+                // The process finalized in the meantime
+                CPU_SET(c, &shdata->free_mask);
+            }
         }
     }
 
-- 
2.43.0


From 6287784f113f8cfd12510333bc360e3e305a2b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:05 +0000
Subject: [PATCH 021/112] fix: report that a process finalized while its mask
 was being queried synchronously

---
 src/LB_comm/shmem_procinfo.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index b0a64f8..97b4e9d 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -805,7 +805,11 @@ int shmem_procinfo__getprocessmask(pid_t pid, cpu_set_t *mask, dlb_drom_flags_t
             // Polling
             shmem_lock(shm_handler);
             {
-                if (!process->dirty) {
+                if (process->pid != pid) {
+                    // process no longer valid
+                    error = DLB_ERR_NOPROC;
+                    done = true;
+                } else if (!process->dirty) {
                     memcpy(mask, &process->current_process_mask, sizeof(cpu_set_t));
                     done = true;
                 }
-- 
2.43.0


From 1e9a940ace67ec5c434c18cea661a8fd92573e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:15 +0000
Subject: [PATCH 022/112] fix: do not write in the output list of pids or CPU
 usages if its length is 0

---
 src/LB_comm/shmem_procinfo.c | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 97b4e9d..0a66ea5 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -1001,14 +1001,11 @@ int shmem_procinfo__getpidlist(pid_t *pidlist, int *nelems, int max_len) {
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             pid_t pid = shdata->process_info[p].pid;
             if (pid != NOBODY) {
                 pidlist[(*nelems)++] = pid;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1058,13 +1055,10 @@ void shmem_procinfo__getcpuusage_list(double *usagelist, int *nelems, int max_le
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 usagelist[(*nelems)++] = shdata->process_info[p].cpu_usage;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1076,13 +1070,10 @@ void shmem_procinfo__getcpuavgusage_list(double *avgusagelist, int *nelems, int
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 avgusagelist[(*nelems)++] = shdata->process_info[p].cpu_avg_usage;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
@@ -1145,13 +1136,10 @@ void shmem_procinfo__getactivecpus_list(pid_t *cpuslist, int *nelems, int max_le
     shmem_lock(shm_handler);
     {
         int p;
-        for (p = 0; p < max_processes; p++) {
+        for (p = 0; p < max_processes && *nelems < max_len; p++) {
             if (shdata->process_info[p].pid != NOBODY) {
                 cpuslist[(*nelems)++] = shdata->process_info[p].active_cpus;
             }
-            if (*nelems == max_len) {
-                break;
-            }
         }
     }
     shmem_unlock(shm_handler);
-- 
2.43.0


From 9f64aae5a144ddae8017507201ac7e3130f9fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:27 +0000
Subject: [PATCH 023/112] fix: update the CPU ownership when
 DLB_DROM_GetProcessMask gives a new mask to the current process

---
 src/LB_core/DLB_kernel.c      | 16 ++++++++++++++++
 src/LB_core/DLB_kernel.h      |  1 +
 src/apis/DLB_interface_drom.c |  5 +++--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index a4b8e3f..a8d7150 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -731,6 +731,22 @@ int poll_drom_update(const subprocess_descriptor_t *spd) {
     return error;
 }
 
+int drom_getprocessmask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags) {
+    int error = shmem_procinfo__getprocessmask(pid, mask, flags);
+    if (error == DLB_NOTED
+            && thread_spd->dlb_initialized) {
+        /* A new mask has been given for the current process, do like a poll_drom */
+        if (thread_spd->options.lewi) {
+            /* If LeWI, resolve reclaimed CPUs */
+            thread_spd->lb_funcs.update_ownership(thread_spd, mask);
+        } else {
+            /* Otherwise, udate owner and guest data */
+            shmem_cpuinfo__update_ownership(thread_spd->id, mask, NULL);
+        }
+    }
+    return error;
+}
+
 int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags) {
     cpu_set_t free_cpu_mask;
     int error = shmem_procinfo__setprocessmask(pid, mask, flags, &free_cpu_mask);
diff --git a/src/LB_core/DLB_kernel.h b/src/LB_core/DLB_kernel.h
index 6b4f3d1..5284ff0 100644
--- a/src/LB_core/DLB_kernel.h
+++ b/src/LB_core/DLB_kernel.h
@@ -84,6 +84,7 @@ int return_cpu_mask(const subprocess_descriptor_t *spd, const cpu_set_t *mask);
 /* DROM Responsive */
 int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask);
 int poll_drom_update(const subprocess_descriptor_t *spd);
+int drom_getprocessmask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags);
 int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags);
 
 /* Misc */
diff --git a/src/apis/DLB_interface_drom.c b/src/apis/DLB_interface_drom.c
index 508ac51..681ebb4 100644
--- a/src/apis/DLB_interface_drom.c
+++ b/src/apis/DLB_interface_drom.c
@@ -65,10 +65,11 @@ int DLB_DROM_GetPidList(int *pidlist, int *nelems, int max_len) {
 }
 
 int DLB_DROM_GetProcessMask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags) {
-    int error = shmem_procinfo__getprocessmask(pid, mask, flags);
+    spd_enter_dlb(thread_spd);
+    int error = drom_getprocessmask(pid, mask, flags);
     if (error == DLB_ERR_NOSHMEM) {
         DLB_DROM_Attach();
-        error = shmem_procinfo__getprocessmask(pid, mask, flags);
+        error = drom_getprocessmask(pid, mask, flags);
         DLB_DROM_Detach();
     }
     return error;
-- 
2.43.0


From a96c489b1ee259f5b48b804a7f8bb47790215bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:57 +0000
Subject: [PATCH 024/112] fix: use the process mask set by DROM when LeWI
 reclaims all the CPUs of a process

---
 src/LB_core/DLB_kernel.c | 40 +++++++++++++++++-----------------------
 src/LB_core/DLB_kernel.h |  4 ++--
 2 files changed, 19 insertions(+), 25 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index a8d7150..6420ed5 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -697,7 +697,19 @@ int return_cpu_mask(const subprocess_descriptor_t *spd, const cpu_set_t *mask) {
 
 /* Drom Responsive */
 
-int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask) {
+/* Update the process mask, and the ownership of its CPUs, after a change by DROM */
+static void update_process_mask(subprocess_descriptor_t *spd, const cpu_set_t *mask) {
+    memcpy(&spd->process_mask, mask, sizeof(cpu_set_t));
+    if (spd->options.lewi) {
+        /* If LeWI, resolve reclaimed CPUs */
+        spd->lb_funcs.update_ownership(spd, mask);
+    } else {
+        /* Otherwise, udate owner and guest data */
+        shmem_cpuinfo__update_ownership(spd->id, mask, NULL);
+    }
+}
+
+int poll_drom(subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask) {
     int error;
     if (!spd->options.drom) {
         error = DLB_ERR_NOCOMP;
@@ -709,20 +721,14 @@ int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_
 
         error = shmem_procinfo__polldrom(spd->id, new_cpus, mask);
         if (error == DLB_SUCCESS) {
-            if (spd->options.lewi) {
-                /* If LeWI, resolve reclaimed CPUs */
-                spd->lb_funcs.update_ownership(spd, mask);
-            } else {
-                /* Otherwise, udate owner and guest data */
-                shmem_cpuinfo__update_ownership(spd->id, mask, NULL);
-            }
+            update_process_mask(spd, mask);
         }
         instrument_event(RUNTIME_EVENT, EVENT_POLLDROM, EVENT_END);
     }
     return error;
 }
 
-int poll_drom_update(const subprocess_descriptor_t *spd) {
+int poll_drom_update(subprocess_descriptor_t *spd) {
     cpu_set_t new_mask;
     int error = poll_drom(spd, NULL, &new_mask);
     if (error == DLB_SUCCESS) {
@@ -736,13 +742,7 @@ int drom_getprocessmask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags) {
     if (error == DLB_NOTED
             && thread_spd->dlb_initialized) {
         /* A new mask has been given for the current process, do like a poll_drom */
-        if (thread_spd->options.lewi) {
-            /* If LeWI, resolve reclaimed CPUs */
-            thread_spd->lb_funcs.update_ownership(thread_spd, mask);
-        } else {
-            /* Otherwise, udate owner and guest data */
-            shmem_cpuinfo__update_ownership(thread_spd->id, mask, NULL);
-        }
+        update_process_mask(thread_spd, mask);
     }
     return error;
 }
@@ -755,13 +755,7 @@ int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flag
             && (pid == 0 || pid == thread_spd->id)
             && !(flags & DLB_NO_SYNC)) {
         /* Mask has been successfully set by own process, do like a poll_drom_update */
-        if (thread_spd->options.lewi) {
-            /* If LeWI, resolve reclaimed CPUs */
-            thread_spd->lb_funcs.update_ownership(thread_spd, mask);
-        } else {
-            /* Otherwise, udate owner and guest data */
-            shmem_cpuinfo__update_ownership(thread_spd->id, mask, NULL);
-        }
+        update_process_mask(thread_spd, mask);
         set_process_mask(&thread_spd->pm, mask);
     }
     if (error == DLB_SUCCESS && (flags & DLB_FREE_CPUS_SLURM)) {
diff --git a/src/LB_core/DLB_kernel.h b/src/LB_core/DLB_kernel.h
index 5284ff0..54a5e45 100644
--- a/src/LB_core/DLB_kernel.h
+++ b/src/LB_core/DLB_kernel.h
@@ -82,8 +82,8 @@ int return_cpu(const subprocess_descriptor_t *spd, int cpuid);
 int return_cpu_mask(const subprocess_descriptor_t *spd, const cpu_set_t *mask);
 
 /* DROM Responsive */
-int poll_drom(const subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask);
-int poll_drom_update(const subprocess_descriptor_t *spd);
+int poll_drom(subprocess_descriptor_t *spd, int *new_cpus, cpu_set_t *new_mask);
+int poll_drom_update(subprocess_descriptor_t *spd);
 int drom_getprocessmask(int pid, dlb_cpu_set_t mask, dlb_drom_flags_t flags);
 int drom_setprocessmask(int pid, const_dlb_cpu_set_t mask, dlb_drom_flags_t flags);
 
-- 
2.43.0


From ac5b939c054e8c353156b5f8071d7c892217dd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:29 +0000
Subject: [PATCH 025/112] fix: update the idle and occupied CPUs when DROM
 changes their owner

---
 src/LB_comm/shmem_cpuinfo.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index bc482df..4bdfc76 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1984,8 +1984,8 @@ void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict proces
                 if (cpuinfo->guest == NOBODY) {
                     cpuinfo->guest = pid;
                     CPU_CLR(cpuid, &shdata->free_cpus);
-                    CPU_CLR(cpuid, &shdata->occupied_cores);
                 }
+                update_occupied_cores(pid, cpuid);
                 if (tasks) {
                     if (cpuinfo->guest != pid) {
                         array_cpuinfo_task_t_push(
@@ -2026,9 +2026,10 @@ void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict proces
                                     .cpuid = cpuid,
                                 });
                     }
-                    CPU_CLR(cpuid, &shdata->free_cpus);
                     verbose(VB_SHMEM, "Releasing ownership of CPU %d", cpuid);
                 }
+                CPU_CLR(cpuid, &shdata->free_cpus);
+                update_occupied_cores(NOBODY, cpuid);
             } else {
                 if (cpuinfo->guest == pid
                         && cpuinfo->state == CPU_BUSY) {
-- 
2.43.0


From bcf095ade4ff16ec24a1fbd6d7a97ccd37fcb06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:33 +0000
Subject: [PATCH 026/112] fix: remove the requests for a CPU of the process
 that DROM makes its owner

---
 src/LB_comm/shmem_cpuinfo.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 4bdfc76..e9fd865 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1986,6 +1986,10 @@ void shmem_cpuinfo__update_ownership(pid_t pid, const cpu_set_t *restrict proces
                     CPU_CLR(cpuid, &shdata->free_cpus);
                 }
                 update_occupied_cores(pid, cpuid);
+                if (shdata->flags.queues_enabled) {
+                    // Previous requests for this CPU are already satisfied
+                    queue_pid_t_remove(&cpuinfo->requests, pid);
+                }
                 if (tasks) {
                     if (cpuinfo->guest != pid) {
                         array_cpuinfo_task_t_push(
-- 
2.43.0


From 88284e4efb34892aa719a0049ea13a4b0540e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:00 +0000
Subject: [PATCH 027/112] fix: TALP used the samples of a nested parallel
 region after freeing them

---
 src/LB_core/DLB_talp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 63905c1..1202f3b 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1979,9 +1979,6 @@ void talp_openmp_parallel_end(omptool_parallel_data_t *parallel_data) {
                     &parallel_samples[1],
                     parallel_data->actual_parallelism-1);
 
-            /* free local data */
-            free(parallel_data->talp_parallel_data);
-            parallel_data->talp_parallel_data = NULL;
         }
 
         /* Update current threads's state */
@@ -1997,6 +1994,12 @@ void talp_openmp_parallel_end(omptool_parallel_data_t *parallel_data) {
                 worker_sample->state = not_useful_omp_out;
             }
         }
+
+        if (parallel_data->level > 1) {
+            /* free local data */
+            free(parallel_data->talp_parallel_data);
+            parallel_data->talp_parallel_data = NULL;
+        }
     }
 }
 
-- 
2.43.0


From 8c8629dcd857dcc846cf640d7e2bd8d3febf7d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:00 +0000
Subject: [PATCH 028/112] fix: TALP regions started or stopped by a thread
 without a sample had wrong times

---
 src/LB_core/DLB_talp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 1202f3b..afe5b09 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -322,6 +322,9 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
     monitor_data_t *monitor_data = monitor->_data;
 
     if (!monitor_data->flags.started && monitor_data->flags.enabled) {
+        /* Make sure that this thread's sample is also gathered */
+        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
+
         /* Gather samples from all threads and update regions */
         talp_aggregate_samples(spd);
 
@@ -329,7 +332,6 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         instrument_event(MONITOR_REGION, monitor_data->id, EVENT_BEGIN);
 
         /* Thread sample was just updated, use timestamp as starting time */
-        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
         monitor->start_time = thread_sample->last_updated_timestamp;
         monitor->stop_time = 0;
 
@@ -374,11 +376,13 @@ int monitoring_region_stop(const subprocess_descriptor_t *spd, dlb_monitor_t *mo
     monitor_data_t *monitor_data = monitor->_data;
 
     if (monitor_data->flags.started) {
+        /* Make sure that this thread's sample is also gathered */
+        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
+
         /* Gather samples from all threads and update regions */
         talp_aggregate_samples(spd);
 
         /* Stop timer */
-        talp_sample_t *thread_sample = talp_get_thread_sample(spd);
         monitor->stop_time = thread_sample->last_updated_timestamp;
         monitor->elapsed_time += monitor->stop_time - monitor->start_time;
         ++(monitor->num_measurements);
-- 
2.43.0


From 741fcb0451e7d03f48846b49204b50dd9a09ac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:00 +0000
Subject: [PATCH 029/112] fix: resetting a started TALP region left it in the
 list of open regions

---
 src/LB_core/DLB_talp.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index afe5b09..5fcdfae 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -291,8 +291,8 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
 }
 
 int monitoring_region_reset(const subprocess_descriptor_t *spd, dlb_monitor_t *monitor) {
+    talp_info_t *talp_info = spd->talp_info;
     if (monitor == DLB_GLOBAL_REGION) {
-        talp_info_t *talp_info = spd->talp_info;
         monitor = talp_info->monitor;
     }
 
@@ -303,8 +303,14 @@ int monitoring_region_reset(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         ._data = monitor->_data,
     };
 
-    monitor_data_t *monitor_data = monitor->_data;
-    monitor_data->flags.started = false;
+    /* The region is no longer open */
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        monitor_data_t *monitor_data = monitor->_data;
+        monitor_data->flags.started = false;
+        talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
 
     return DLB_SUCCESS;
 }
-- 
2.43.0


From 87904c3221d95515f22149fad0a4392fcc9f3278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:17 +0000
Subject: [PATCH 030/112] fix: threads registering the same TALP region at once
 got different regions

---
 src/LB_core/DLB_talp.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 5fcdfae..a93e072 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -245,15 +245,15 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
         global_region = true;
     }
 
+    /* The mutex is held until the new region is inserted, otherwise two threads
+     * could register the same region twice */
+    pthread_mutex_lock(&talp_info->regions_mutex);
+
     /* Found monitor if already registered */
     if (!anonymous_region) {
-        pthread_mutex_lock(&talp_info->regions_mutex);
-        {
-            monitor = g_tree_lookup(talp_info->regions, name);
-        }
-        pthread_mutex_unlock(&talp_info->regions_mutex);
-
+        monitor = g_tree_lookup(talp_info->regions, name);
         if (monitor != NULL) {
+            pthread_mutex_unlock(&talp_info->regions_mutex);
             return monitor;
         }
     }
@@ -281,10 +281,7 @@ dlb_monitor_t* monitoring_region_register(const subprocess_descriptor_t *spd,
             spd->id, avg_cpus, spd->options.talp_region_select, have_shmem);
 
     /* Finally, insert */
-    pthread_mutex_lock(&talp_info->regions_mutex);
-    {
-        g_tree_insert(talp_info->regions, (gpointer)monitor->name, monitor);
-    }
+    g_tree_insert(talp_info->regions, (gpointer)monitor->name, monitor);
     pthread_mutex_unlock(&talp_info->regions_mutex);
 
     return monitor;
-- 
2.43.0


From 038087e1e0b282e04690d3080a2f1d793532ca59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:30 +0000
Subject: [PATCH 031/112] fix: TALP samples were visible to other threads
 before being initialized

---
 src/LB_core/DLB_talp.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index a93e072..6682605 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -745,8 +745,23 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
     /* Observer threads don't have a valid sample */
     if (unlikely(thread_is_observer)) return NULL;
 
-    /* Otherwise, allocate */
+    /* If a thread is created mid-region, its initial time is that of the
+     * innermost open region, otherwise it is the current time */
     talp_info_t *talp_info = spd->talp_info;
+    int64_t last_updated_timestamp;
+    pthread_mutex_lock(&talp_info->regions_mutex);
+    {
+        if (talp_info->open_regions) {
+            const dlb_monitor_t *monitor = talp_info->open_regions->data;
+            last_updated_timestamp = monitor->start_time;
+        } else {
+            last_updated_timestamp = get_time_in_ns();
+        }
+    }
+    pthread_mutex_unlock(&talp_info->regions_mutex);
+
+    /* Otherwise, allocate. The sample must be initialized before other threads
+     * can see it. */
     pthread_mutex_lock(&talp_info->samples_mutex);
     {
         int ncpus = ++talp_info->ncpus;
@@ -756,6 +771,9 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
             void *new_sample;
             if (posix_memalign(&new_sample, DLB_CACHE_LINE, sizeof(talp_sample_t)) == 0) {
                 _tls_sample = new_sample;
+                *_tls_sample = (const talp_sample_t) {
+                    .last_updated_timestamp = last_updated_timestamp,
+                };
                 talp_info->samples[ncpus-1] = new_sample;
             }
         }
@@ -764,20 +782,6 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
 
     fatal_cond(_tls_sample == NULL, "TALP: could not allocate thread sample");
 
-    /* If a thread is created mid-region, its initial time is that of the
-     * innermost open region, otherwise it is the current time */
-    int64_t last_updated_timestamp;
-    if (talp_info->open_regions) {
-        const dlb_monitor_t *monitor = talp_info->open_regions->data;
-        last_updated_timestamp = monitor->start_time;
-    } else {
-        last_updated_timestamp = get_time_in_ns();
-    }
-
-    *_tls_sample = (const talp_sample_t) {
-        .last_updated_timestamp = last_updated_timestamp,
-    };
-
     set_sample_state(_tls_sample, disabled, talp_info->flags.papi);
 
 #ifdef INSTRUMENTATION_VERSION
-- 
2.43.0


From ebce71c487ed99e44c728327238444facf87acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:26 +0000
Subject: [PATCH 032/112] fix: concurrent updates of the TALP samples counted
 times twice or lost them

---
 src/LB_core/DLB_talp.c   | 27 +++++++++++++++------------
 src/LB_core/talp_types.h |  2 +-
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 6682605..3c6273d 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -335,7 +335,7 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         instrument_event(MONITOR_REGION, monitor_data->id, EVENT_BEGIN);
 
         /* Thread sample was just updated, use timestamp as starting time */
-        monitor->start_time = thread_sample->last_updated_timestamp;
+        monitor->start_time = DLB_ATOMIC_LD_RLX(&thread_sample->last_updated_timestamp);
         monitor->stop_time = 0;
 
         pthread_mutex_lock(&talp_info->regions_mutex);
@@ -386,7 +386,7 @@ int monitoring_region_stop(const subprocess_descriptor_t *spd, dlb_monitor_t *mo
         talp_aggregate_samples(spd);
 
         /* Stop timer */
-        monitor->stop_time = thread_sample->last_updated_timestamp;
+        monitor->stop_time = DLB_ATOMIC_LD_RLX(&thread_sample->last_updated_timestamp);
         monitor->elapsed_time += monitor->stop_time - monitor->start_time;
         ++(monitor->num_measurements);
 
@@ -508,7 +508,7 @@ static void monitoring_regions_update_nested(const subprocess_descriptor_t *spd,
 
             dlb_monitor_t *monitor = node->data;
             monitor->omp_serialization_time +=
-                sample->last_updated_timestamp - monitor->start_time;
+                DLB_ATOMIC_LD_RLX(&sample->last_updated_timestamp) - monitor->start_time;
         }
     }
     pthread_mutex_unlock(&talp_info->regions_mutex);
@@ -814,10 +814,11 @@ static void talp_update_sample(talp_sample_t *sample, bool papi, int64_t timesta
     /* Observer threads ignore this function */
     if (unlikely(sample == NULL)) return;
 
-    /* Compute duration and set new last_updated_timestamp */
+    /* Compute duration and set new last_updated_timestamp (atomically, another
+     * thread may be updating the same sample) */
     int64_t now = timestamp == NO_TIMESTAMP ? get_time_in_ns() : timestamp;
-    int64_t microsample_duration = now - sample->last_updated_timestamp;
-    sample->last_updated_timestamp = now;
+    int64_t microsample_duration = now
+        - DLB_ATOMIC_EXCH_RLX(&sample->last_updated_timestamp, now);
 
     /* Update the appropriate sample timer */
     switch(sample->state) {
@@ -924,11 +925,12 @@ static void talp_aggregate_samples(const subprocess_descriptor_t *spd) {
             talp_update_sample(talp_info->samples[i], talp_info->flags.papi, timestamp);
             talp_aggregate_sample(talp_info->samples[i], &macrosample);
         }
+
+        /* Update all started regions (before any other thread may stop them or
+         * start new ones with its own aggregation) */
+        monitoring_regions_update_all(spd, &macrosample, num_cpus);
     }
     pthread_mutex_unlock(&talp_info->samples_mutex);
-
-    /* Update all started regions */
-    monitoring_regions_update_all(spd, &macrosample, num_cpus);
 }
 
 /* Accumulate samples from only a subset of samples of a parallel region.
@@ -963,11 +965,12 @@ static void talp_aggregate_samples_parallel(const subprocess_descriptor_t *spd,
         /* Update derived timers into macrosample */
         macrosample.timers.not_useful_omp_in_lb = lb_timer;
         macrosample.timers.not_useful_omp_in_sched = sched_timer;
+
+        /* Update all started regions (before any other thread may stop them or
+         * start new ones with its own aggregation) */
+        monitoring_regions_update_all(spd, &macrosample, nelems);
     }
     pthread_mutex_unlock(&talp_info->samples_mutex);
-
-    /* Update all started regions */
-    monitoring_regions_update_all(spd, &macrosample, nelems);
 }
 
 
diff --git a/src/LB_core/talp_types.h b/src/LB_core/talp_types.h
index e633c18..2411e24 100644
--- a/src/LB_core/talp_types.h
+++ b/src/LB_core/talp_types.h
@@ -55,7 +55,7 @@ typedef struct DLB_ALIGN_CACHE talp_sample_t {
         atomic_int_least64_t num_omp_parallels;
         atomic_int_least64_t num_omp_tasks;
     } stats;
-    int64_t last_updated_timestamp;
+    atomic_int_least64_t last_updated_timestamp;
     enum talp_sample_state {
         disabled,
         useful,
-- 
2.43.0


From b2ea511dead5ebb245ca3f6ec66652cd466857b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:26 +0000
Subject: [PATCH 033/112] fix: two threads could start or stop the same TALP
 region at once

---
 src/LB_core/DLB_talp.c | 50 ++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 3c6273d..3590d4d 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -331,20 +331,29 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         /* Gather samples from all threads and update regions */
         talp_aggregate_samples(spd);
 
-        verbose(VB_TALP, "Starting region %s", monitor->name);
-        instrument_event(MONITOR_REGION, monitor_data->id, EVENT_BEGIN);
-
-        /* Thread sample was just updated, use timestamp as starting time */
-        monitor->start_time = DLB_ATOMIC_LD_RLX(&thread_sample->last_updated_timestamp);
-        monitor->stop_time = 0;
-
+        bool already_started;
         pthread_mutex_lock(&talp_info->regions_mutex);
         {
-            monitor_data->flags.started = true;
-            talp_info->open_regions = g_slist_prepend(talp_info->open_regions, monitor);
+            /* Another thread may have started the region in the meantime */
+            already_started = monitor_data->flags.started;
+            if (!already_started) {
+                /* Thread sample was just updated, use timestamp as starting time */
+                monitor->start_time = DLB_ATOMIC_LD_RLX(
+                        &thread_sample->last_updated_timestamp);
+                monitor->stop_time = 0;
+                monitor_data->flags.started = true;
+                talp_info->open_regions = g_slist_prepend(talp_info->open_regions, monitor);
+            }
         }
         pthread_mutex_unlock(&talp_info->regions_mutex);
 
+        if (already_started) {
+            return DLB_NOUPDT;
+        }
+
+        verbose(VB_TALP, "Starting region %s", monitor->name);
+        instrument_event(MONITOR_REGION, monitor_data->id, EVENT_BEGIN);
+
         /* Normally, the sample state will be 'useful' at this point, but on
          * certain cases where neither talp_mpi_init nor talp_openmp_init have
          * been called, this is necessary */
@@ -385,18 +394,27 @@ int monitoring_region_stop(const subprocess_descriptor_t *spd, dlb_monitor_t *mo
         /* Gather samples from all threads and update regions */
         talp_aggregate_samples(spd);
 
-        /* Stop timer */
-        monitor->stop_time = DLB_ATOMIC_LD_RLX(&thread_sample->last_updated_timestamp);
-        monitor->elapsed_time += monitor->stop_time - monitor->start_time;
-        ++(monitor->num_measurements);
-
+        bool already_stopped;
         pthread_mutex_lock(&talp_info->regions_mutex);
         {
-            monitor_data->flags.started = false;
-            talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+            /* Another thread may have stopped the region in the meantime */
+            already_stopped = !monitor_data->flags.started;
+            if (!already_stopped) {
+                /* Stop timer */
+                monitor->stop_time = DLB_ATOMIC_LD_RLX(
+                        &thread_sample->last_updated_timestamp);
+                monitor->elapsed_time += monitor->stop_time - monitor->start_time;
+                ++(monitor->num_measurements);
+                monitor_data->flags.started = false;
+                talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
+            }
         }
         pthread_mutex_unlock(&talp_info->regions_mutex);
 
+        if (already_stopped) {
+            return DLB_NOUPDT;
+        }
+
         verbose(VB_TALP, "Stopping region %s", monitor->name);
         instrument_event(MONITOR_REGION, monitor_data->id, EVENT_END);
         error = DLB_SUCCESS;
-- 
2.43.0


From 073a05c93d5f18fb2c0d86539bddb34960582946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:26 +0000
Subject: [PATCH 034/112] fix: TALP lost or repeated the first time of a thread
 if another thread updated the regions

---
 src/LB_core/DLB_talp.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 3590d4d..27758c2 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -505,9 +505,10 @@ static void monitoring_regions_update_all(const subprocess_descriptor_t *spd,
     pthread_mutex_unlock(&talp_info->regions_mutex);
 }
 
-/* Update all open nested regions (so, excluding the innermost) and add the
- * time since its start time until the sample last timestamp (which is the time
- * that has yet not been added to the regions) as omp_serialization_time */
+/* Update all open nested regions and add the time since its start time until
+ * the sample last timestamp (which is the time that has yet not been added to
+ * the regions) as omp_serialization_time. This time is 0 for the innermost
+ * region, unless other thread has aggregated the sample while it was disabled. */
 static void monitoring_regions_update_nested(const subprocess_descriptor_t *spd,
         const talp_sample_t *sample) {
 
@@ -516,11 +517,7 @@ static void monitoring_regions_update_nested(const subprocess_descriptor_t *spd,
     /* Update all open nested regions */
     pthread_mutex_lock(&talp_info->regions_mutex);
     {
-        GSList *nested_open_regions = talp_info->open_regions
-            ? talp_info->open_regions->next
-            : NULL;
-
-        for (GSList *node = nested_open_regions;
+        for (GSList *node = talp_info->open_regions;
                 node != NULL;
                 node = node->next) {
 
@@ -1926,12 +1923,16 @@ void talp_openmp_thread_begin() {
             if (talp_info->flags.papi) {
                 init_papi_counters();
             }
-            set_sample_state(sample, not_useful_omp_out, talp_info->flags.papi);
 
             /* The initial time of the sample is set to match the start time of
              * the innermost open region, but other nested open regions need to
-             * be fixed */
-            monitoring_regions_update_nested(spd, sample);
+             * be fixed (and no other thread may aggregate the sample until then) */
+            pthread_mutex_lock(&talp_info->samples_mutex);
+            {
+                set_sample_state(sample, not_useful_omp_out, talp_info->flags.papi);
+                monitoring_regions_update_nested(spd, sample);
+            }
+            pthread_mutex_unlock(&talp_info->samples_mutex);
         }
     }
 }
-- 
2.43.0


From ddb14ccad13b1b0b82843383e82147e48494730d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:13 +0000
Subject: [PATCH 035/112] fix: a thread could aggregate the TALP samples while
 other started or stopped a region

---
 src/LB_core/DLB_talp.c | 50 ++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 27758c2..5e87084 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -59,6 +59,7 @@ static void talp_dealloc_samples(const subprocess_descriptor_t *spd);
 static void talp_record_monitor(const subprocess_descriptor_t *spd,
         const dlb_monitor_t *monitor);
 static void talp_aggregate_samples(const subprocess_descriptor_t *spd);
+static void talp_aggregate_samples_locked(const subprocess_descriptor_t *spd);
 static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd);
 
 #if MPI_LIB
@@ -328,8 +329,10 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         /* Make sure that this thread's sample is also gathered */
         talp_sample_t *thread_sample = talp_get_thread_sample(spd);
 
-        /* Gather samples from all threads and update regions */
-        talp_aggregate_samples(spd);
+        /* Gather samples from all threads and update regions, the samples are
+         * locked so that other threads do not aggregate them in the meantime */
+        pthread_mutex_lock(&talp_info->samples_mutex);
+        talp_aggregate_samples_locked(spd);
 
         bool already_started;
         pthread_mutex_lock(&talp_info->regions_mutex);
@@ -346,6 +349,7 @@ int monitoring_region_start(const subprocess_descriptor_t *spd, dlb_monitor_t *m
             }
         }
         pthread_mutex_unlock(&talp_info->regions_mutex);
+        pthread_mutex_unlock(&talp_info->samples_mutex);
 
         if (already_started) {
             return DLB_NOUPDT;
@@ -391,8 +395,10 @@ int monitoring_region_stop(const subprocess_descriptor_t *spd, dlb_monitor_t *mo
         /* Make sure that this thread's sample is also gathered */
         talp_sample_t *thread_sample = talp_get_thread_sample(spd);
 
-        /* Gather samples from all threads and update regions */
-        talp_aggregate_samples(spd);
+        /* Gather samples from all threads and update regions, the samples are
+         * locked so that other threads do not aggregate them in the meantime */
+        pthread_mutex_lock(&talp_info->samples_mutex);
+        talp_aggregate_samples_locked(spd);
 
         bool already_stopped;
         pthread_mutex_lock(&talp_info->regions_mutex);
@@ -410,6 +416,7 @@ int monitoring_region_stop(const subprocess_descriptor_t *spd, dlb_monitor_t *mo
             }
         }
         pthread_mutex_unlock(&talp_info->regions_mutex);
+        pthread_mutex_unlock(&talp_info->samples_mutex);
 
         if (already_stopped) {
             return DLB_NOUPDT;
@@ -922,28 +929,33 @@ static inline void talp_aggregate_sample(talp_sample_t *sample,
         DLB_ATOMIC_EXCH_RLX(&sample->stats.num_omp_tasks, 0);
 }
 
-/* Accumulate values from samples of all threads and update regions */
-static void talp_aggregate_samples(const subprocess_descriptor_t *spd) {
+/* Accumulate values from samples of all threads and update regions
+ * (samples_mutex must be locked) */
+static void talp_aggregate_samples_locked(const subprocess_descriptor_t *spd) {
 
-    int num_cpus;
     talp_info_t *talp_info = spd->talp_info;
+    int num_cpus = talp_info->ncpus;
 
     /* Accumulate samples from all threads */
     talp_macrosample_t macrosample = (const talp_macrosample_t) {};
-    pthread_mutex_lock(&talp_info->samples_mutex);
-    {
-        num_cpus = talp_info->ncpus;
 
-        /* Force-update and aggregate all samples */
-        int64_t timestamp = get_time_in_ns();
-        for (int i = 0; i < num_cpus; ++i) {
-            talp_update_sample(talp_info->samples[i], talp_info->flags.papi, timestamp);
-            talp_aggregate_sample(talp_info->samples[i], &macrosample);
-        }
+    /* Force-update and aggregate all samples */
+    int64_t timestamp = get_time_in_ns();
+    for (int i = 0; i < num_cpus; ++i) {
+        talp_update_sample(talp_info->samples[i], talp_info->flags.papi, timestamp);
+        talp_aggregate_sample(talp_info->samples[i], &macrosample);
+    }
 
-        /* Update all started regions (before any other thread may stop them or
-         * start new ones with its own aggregation) */
-        monitoring_regions_update_all(spd, &macrosample, num_cpus);
+    /* Update all started regions (before any other thread may stop them or
+     * start new ones with its own aggregation) */
+    monitoring_regions_update_all(spd, &macrosample, num_cpus);
+}
+
+static void talp_aggregate_samples(const subprocess_descriptor_t *spd) {
+    talp_info_t *talp_info = spd->talp_info;
+    pthread_mutex_lock(&talp_info->samples_mutex);
+    {
+        talp_aggregate_samples_locked(spd);
     }
     pthread_mutex_unlock(&talp_info->samples_mutex);
 }
-- 
2.43.0


From 27548089a67987ba2e9a8a7f3e99536e558254d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:49 +0000
Subject: [PATCH 036/112] fix: crash if a TALP region was reset while other
 thread updated the open regions

---
 src/LB_core/DLB_talp.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 5e87084..673ab59 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -294,16 +294,16 @@ int monitoring_region_reset(const subprocess_descriptor_t *spd, dlb_monitor_t *m
         monitor = talp_info->monitor;
     }
 
-    /* Reset everything except these fields: */
-    *monitor = (const dlb_monitor_t) {
-        .name = monitor->name,
-        .num_resets = monitor->num_resets + 1,
-        ._data = monitor->_data,
-    };
-
-    /* The region is no longer open */
     pthread_mutex_lock(&talp_info->regions_mutex);
     {
+        /* Reset everything except these fields: */
+        *monitor = (const dlb_monitor_t) {
+            .name = monitor->name,
+            .num_resets = monitor->num_resets + 1,
+            ._data = monitor->_data,
+        };
+
+        /* The region is no longer open */
         monitor_data_t *monitor_data = monitor->_data;
         monitor_data->flags.started = false;
         talp_info->open_regions = g_slist_remove(talp_info->open_regions, monitor);
-- 
2.43.0


From e7f4bb994da27efb6f7f73e5483084aed46baae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:06 +0000
Subject: [PATCH 037/112] fix: attaching to a TALP shared memory could shrink
 it while other process was using it

---
 src/LB_comm/shmem.c           | 8 +++++---
 src/LB_comm/shmem_talp.h      | 3 +++
 src/LB_core/DLB_kernel.c      | 3 ++-
 src/LB_core/DLB_talp.c        | 5 ++---
 src/apis/DLB_interface_talp.c | 2 +-
 5 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 9b37f5a..57a269e 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -156,9 +156,11 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
         fatal("shm_open error: %s", strerror(errno));
     }
 
-    /* Truncate the regular file to a precise size */
-    if (ftruncate(fd, handler->shm_size) == -1) {
-        fatal("ftruncate error: %s", strerror(errno));
+    /* Make sure that the regular file has the needed size, but never shrink it
+     * because some other process may be already using a larger one */
+    int fallocate_error = posix_fallocate(fd, 0, handler->shm_size);
+    if (fallocate_error != 0) {
+        fatal("posix_fallocate error: %s", strerror(fallocate_error));
     }
 
     /* Map shared memory object */
diff --git a/src/LB_comm/shmem_talp.h b/src/LB_comm/shmem_talp.h
index 2aa78c1..41b11fc 100644
--- a/src/LB_comm/shmem_talp.h
+++ b/src/LB_comm/shmem_talp.h
@@ -24,6 +24,9 @@
 #include <stdbool.h>
 #include <stdint.h>
 
+/* Number of regions allocated per process with --talp-external-profiler */
+enum { SHMEM_TALP_REGIONS_PER_PROC = 100 };
+
 typedef struct talp_region_list_t {
     pid_t pid;
     int region_id;
diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 6420ed5..9ab6859 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -822,7 +822,8 @@ int print_shmem(subprocess_descriptor_t *spd, int num_columns,
             num_columns, print_flags);
     shmem_procinfo__print_info(spd->options.shm_key);
     shmem_barrier__print_info(spd->options.shm_key);
-    shmem_talp__print_info(spd->options.shm_key, spd->options.shm_size_multiplier);
+    shmem_talp__print_info(spd->options.shm_key,
+            spd->options.shm_size_multiplier * SHMEM_TALP_REGIONS_PER_PROC);
 
     if (!spd->dlb_initialized) {
         options_finalize(&spd->options);
diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 673ab59..6089e0a 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -642,11 +642,10 @@ void talp_init(subprocess_descriptor_t *spd) {
     if (talp_info->flags.have_shmem || talp_info->flags.have_minimal_shmem) {
         /* If we only need a minimal shmem, its size will be the user-provided
          * multiplier times 'system_size' (usually, 1 region per process)
-         * Otherwise, we multiply it by DEFAULT_REGIONS_PER_PROC.
+         * Otherwise, we multiply it by SHMEM_TALP_REGIONS_PER_PROC.
          */
-        enum { DEFAULT_REGIONS_PER_PROC = 100 };
         int shmem_size_multiplier = spd->options.shm_size_multiplier
-            * (talp_info->flags.have_shmem ? DEFAULT_REGIONS_PER_PROC : 1);
+            * (talp_info->flags.have_shmem ? SHMEM_TALP_REGIONS_PER_PROC : 1);
         shmem_talp__init(spd->options.shm_key, shmem_size_multiplier);
     }
 
diff --git a/src/apis/DLB_interface_talp.c b/src/apis/DLB_interface_talp.c
index 2c89d59..8a05d93 100644
--- a/src/apis/DLB_interface_talp.c
+++ b/src/apis/DLB_interface_talp.c
@@ -57,7 +57,7 @@ int DLB_TALP_Attach(void) {
     }
     shmem_cpuinfo_ext__init(shm_key_ptr, lewi_color);
     shmem_procinfo_ext__init(shm_key_ptr);
-    shmem_talp_ext__init(shm_key_ptr, shm_size_multiplier);
+    shmem_talp_ext__init(shm_key_ptr, shm_size_multiplier * SHMEM_TALP_REGIONS_PER_PROC);
     return DLB_SUCCESS;
 }
 
-- 
2.43.0


From 2a92f34684655cda3a97d780fe273333e0504256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:06 +0000
Subject: [PATCH 038/112] fix: TALP shared memory did not reuse the regions of
 finalized processes

---
 src/LB_comm/shmem_talp.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/LB_comm/shmem_talp.c b/src/LB_comm/shmem_talp.c
index 0745601..7bc9855 100644
--- a/src/LB_comm/shmem_talp.c
+++ b/src/LB_comm/shmem_talp.c
@@ -226,9 +226,10 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
     int error;
     shmem_lock(shm_handler);
     {
-        /* Regions cannot be removed from shmem_talp.
-         * Search is linear, and append if not found. */
+        /* Search is linear. If not found, use the spot of some removed region
+         * or append. */
         int region_id;
+        int empty_id = -1;
         int num_regions = shdata->num_regions;
         for (region_id = 0; region_id < num_regions; ++region_id) {
             talp_region_t *talp_region = &shdata->talp_region[region_id];
@@ -237,6 +238,9 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
                 /* Region was already registered */
                 break;
             }
+            if (talp_region->pid == NOBODY && empty_id == -1) {
+                empty_id = region_id;
+            }
         }
 
         if (region_id < num_regions) {
@@ -244,9 +248,13 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
             *node_shared_id = region_id;
             error = DLB_NOUPDT;
         } else {
-            if (num_regions < max_regions) {
-                /* Register new region (region_id points to empty spot) */
-                ++shdata->num_regions;
+            if (empty_id != -1 || num_regions < max_regions) {
+                /* Register new region */
+                if (empty_id != -1) {
+                    region_id = empty_id;
+                } else {
+                    ++shdata->num_regions;
+                }
                 talp_region_t *empty_spot = &shdata->talp_region[region_id];
                 *empty_spot = (const talp_region_t) {.pid = pid, .avg_cpus = avg_cpus};
                 snprintf(empty_spot->name, DLB_MONITOR_NAME_MAX, "%s", name);
-- 
2.43.0


From 6bb3fe372fc85d9aff56d84db27cd5cd0366165a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:06 +0000
Subject: [PATCH 039/112] fix: DLB_TALP_GetTimes could be called with no
 subprocess descriptor

---
 src/apis/DLB_interface_talp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/apis/DLB_interface_talp.c b/src/apis/DLB_interface_talp.c
index 8a05d93..b873967 100644
--- a/src/apis/DLB_interface_talp.c
+++ b/src/apis/DLB_interface_talp.c
@@ -79,9 +79,11 @@ int DLB_TALP_GetPidList(int *pidlist, int *nelems, int max_len) {
 
 int DLB_TALP_GetTimes(int pid, double *mpi_time, double *useful_time) {
 
+    spd_enter_dlb(thread_spd);
+
     int error;
 
-    if (pid == 0 || (thread_spd && thread_spd->id == pid)) {
+    if (pid == 0 || thread_spd->id == pid) {
         /* Same process */
         const dlb_monitor_t *monitor = monitoring_region_get_global_region(thread_spd);
         if (monitor != NULL) {
-- 
2.43.0


From 07139eff6af08b2809d937dbfd5ecc2f718f2061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:07 +0000
Subject: [PATCH 040/112] fix: TALP node metrics ignored the processes beyond
 the number of CPUs

---
 src/LB_core/DLB_talp.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 6089e0a..e14ab8d 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -2166,10 +2166,14 @@ int talp_query_pop_node_metrics(const char *name, dlb_node_metrics_t *node_metri
     int64_t max_useful_time = 0;
 
     /* Obtain a list of regions in the node associated with given region */
-    int max_procs = mu_get_system_size();
+    int max_procs = shmem_talp__get_max_regions();
     talp_region_list_t *region_list = malloc(max_procs * sizeof(talp_region_list_t));
-    int nelems;
-    shmem_talp__get_regionlist(region_list, &nelems, max_procs, name);
+    int nelems = 0;
+    error = shmem_talp__get_regionlist(region_list, &nelems, max_procs, name);
+    if (error < DLB_SUCCESS) {
+        free(region_list);
+        return error;
+    }
 
     /* Count how many processes have started the region */
     int processes_per_node = 0;
-- 
2.43.0


From b641c2acdcf83ca00b525b12b7e89cefcffcfac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:28 +0000
Subject: [PATCH 041/112] fix: a process attaching to a shared memory did not
 use the spot of a dead process

---
 src/LB_comm/shmem.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 57a269e..8f0e231 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -57,12 +57,7 @@ static bool shmem_consistency_check_pids(pid_t *pidlist, pid_t pid,
     bool registered = false;
     int i;
     for(i=0; i<mu_get_system_size(); ++i) {
-        if (pidlist[i] == 0) {
-            if (!registered) {
-                pidlist[i] = pid;
-                registered = true;
-            }
-        } else {
+        if (pidlist[i] != 0) {
             if (kill(pidlist[i], 0) == -1) {
                 /* Process pidlist[i] is registered and does not exist */
                 if (cleanup_fn) {
@@ -79,6 +74,12 @@ static bool shmem_consistency_check_pids(pid_t *pidlist, pid_t pid,
                 }
             }
         }
+
+        /* Use the first empty spot, it may belong to a process just removed */
+        if (pidlist[i] == 0 && !registered) {
+            pidlist[i] = pid;
+            registered = true;
+        }
     }
     return registered;
 }
-- 
2.43.0


From 702384cfe3bd41cfd0e4b02ef6b704bca74906c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:54 +0000
Subject: [PATCH 042/112] fix: DLB_TALP_CollectPOPNodeMetrics could miss
 processes or remove their global regions

---
 src/LB_comm/shmem_talp.c | 20 ++++++++++++++++++++
 src/LB_comm/shmem_talp.h |  1 +
 src/LB_core/DLB_talp.c   | 34 +++++++++++++++++++++++++---------
 3 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/LB_comm/shmem_talp.c b/src/LB_comm/shmem_talp.c
index 7bc9855..2d644eb 100644
--- a/src/LB_comm/shmem_talp.c
+++ b/src/LB_comm/shmem_talp.c
@@ -271,6 +271,26 @@ int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_
     return error;
 }
 
+/* Remove monitoring region */
+int shmem_talp__deregister(int region_id) {
+    if (shm_handler == NULL) return DLB_ERR_NOSHMEM;
+
+    int error;
+    shmem_lock(shm_handler);
+    {
+        if (region_id >= 0 && region_id < shdata->num_regions
+                && shdata->talp_region[region_id].pid != NOBODY) {
+            shdata->talp_region[region_id] = (const talp_region_t){};
+            error = DLB_SUCCESS;
+        } else {
+            error = DLB_ERR_NOENT;
+        }
+    }
+    shmem_unlock(shm_handler);
+
+    return error;
+}
+
 /*********************************************************************************/
 /*  Getters                                                                      */
 /*********************************************************************************/
diff --git a/src/LB_comm/shmem_talp.h b/src/LB_comm/shmem_talp.h
index 41b11fc..de15651 100644
--- a/src/LB_comm/shmem_talp.h
+++ b/src/LB_comm/shmem_talp.h
@@ -45,6 +45,7 @@ int shmem_talp_ext__finalize(void);
 
 /* Register */
 int shmem_talp__register(pid_t pid, float avg_cpus, const char *name, int *node_shared_id);
+int shmem_talp__deregister(int region_id);
 
 /* Getters */
 int shmem_talp__get_pidlist(pid_t *pidlist, int *nelems, int max_len);
diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index e14ab8d..f851e11 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -641,11 +641,12 @@ void talp_init(subprocess_descriptor_t *spd) {
     /* Initialize shared memory */
     if (talp_info->flags.have_shmem || talp_info->flags.have_minimal_shmem) {
         /* If we only need a minimal shmem, its size will be the user-provided
-         * multiplier times 'system_size' (usually, 1 region per process)
+         * multiplier times 'system_size' times 2 (the global region and the one
+         * that talp_collect_pop_node_metrics may temporarily add per process)
          * Otherwise, we multiply it by SHMEM_TALP_REGIONS_PER_PROC.
          */
         int shmem_size_multiplier = spd->options.shm_size_multiplier
-            * (talp_info->flags.have_shmem ? SHMEM_TALP_REGIONS_PER_PROC : 1);
+            * (talp_info->flags.have_shmem ? SHMEM_TALP_REGIONS_PER_PROC : 2);
         shmem_talp__init(spd->options.shm_key, shmem_size_multiplier);
     }
 
@@ -2286,14 +2287,23 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
     bool resume_region = monitoring_region_stop(spd, monitor) == DLB_SUCCESS;
 
     /* This functionality needs a shared memory, create a temporary one if needed */
-    if (!talp_info->flags.have_shmem) {
+    bool temporary_shmem = !talp_info->flags.have_shmem
+        && !talp_info->flags.have_minimal_shmem;
+    if (temporary_shmem) {
         shmem_talp__init(spd->options.shm_key, 1);
+    }
+
+    /* The region needs to be in the shared memory, add it temporarily if needed */
+    int node_shared_id = monitor_data->node_shared_id;
+    bool temporary_region = !talp_info->flags.have_shmem
+        && (temporary_shmem || monitor != talp_info->monitor);
+    if (temporary_region) {
         shmem_talp__register(spd->id, monitor->avg_cpus, monitor->name,
-                &monitor_data->node_shared_id);
+                &node_shared_id);
     }
 
     /* Update the shared memory with this process' metrics */
-    shmem_talp__set_times(monitor_data->node_shared_id,
+    shmem_talp__set_times(node_shared_id,
             monitor->mpi_time,
             monitor->useful_time);
 
@@ -2301,10 +2311,16 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
     node_barrier(spd, NULL);
 
     /* Compute node metrics for that region name */
-    talp_query_pop_node_metrics(monitor->name, node_metrics);
+    int error = talp_query_pop_node_metrics(monitor->name, node_metrics);
+
+    /* Perform another node barrier to ensure everyone has read the metrics */
+    node_barrier(spd, NULL);
 
-    /* Remove shared memory if it was a temporary one */
-    if (!talp_info->flags.have_shmem) {
+    /* Remove region and shared memory if they were temporary */
+    if (temporary_region) {
+        shmem_talp__deregister(node_shared_id);
+    }
+    if (temporary_shmem) {
         shmem_talp__finalize(spd->id);
     }
 
@@ -2313,5 +2329,5 @@ int talp_collect_pop_node_metrics(const subprocess_descriptor_t *spd,
         monitoring_region_start(spd, monitor);
     }
 
-    return DLB_SUCCESS;
+    return error;
 }
-- 
2.43.0


From 54207707d3182cac7e376c350658a038e856531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:00 +0000
Subject: [PATCH 043/112] fix: a process could attach to a shared memory that
 other process was removing

---
 src/LB_comm/shmem.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index 8f0e231..c870d41 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -219,6 +219,21 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
     } else if (error != 0) {
         fatal("pthread_mutex_timedlock error: %s", strerror(error));
     }
+
+    /* Once the lock is acquired, check that no other process removed the
+     * shared memory in the meantime, otherwise try again with a new one */
+    struct stat statbuf;
+    if (fstat(fd, &statbuf) == -1) {
+        fatal("fstat error: %s", strerror(errno));
+    }
+    close(fd);
+    if (statbuf.st_nlink == 0) {
+        pthread_mutex_unlock(&handler->shsync->shmem_mutex);
+        munmap(handler->shm_addr, handler->shm_size);
+        free(handler);
+        return shmem_init(shdata, shmem_props);
+    }
+
     shmem_consistency_check_version(handler->shsync->shsync_version, SHMEM_SYNC_VERSION);
     shmem_consistency_check_version(handler->shsync->shmem_version, shmem_props->version);
     shmem_consistency_check_pids(handler->shsync->pidlist, pid, shmem_props->cleanup_fn, *shdata);
@@ -238,6 +253,15 @@ void shmem_finalize(shmem_handler_t* handler, bool (*is_empty_fn)(void)) {
     bool is_empty = is_empty_fn ? is_empty_fn() : true;
     bool is_last_one = shmem_consistency_remove_pid(handler->shsync->pidlist, getpid());
     bool delete_shmem = is_empty && is_last_one;
+
+    /* Only the last process unlinks shmem. It must be done while holding the lock
+     * so that any other process attaching to it notices that it was removed. */
+    if (delete_shmem) {
+        verbose(VB_SHMEM, "Removing shared memory %s", handler->shm_filename);
+        if (shm_unlink(handler->shm_filename) != 0 && errno != ENOENT) {
+            fatal("shm_unlink error: %s", strerror(errno));
+        }
+    }
     shmem_unlock(handler);
 
     /* Here we should destroy the pthread mutex but another process may open
@@ -249,14 +273,6 @@ void shmem_finalize(shmem_handler_t* handler, bool (*is_empty_fn)(void)) {
         fatal("munmap error: %s", strerror(errno));
     }
 
-    /* Only the last process unlinks shmem */
-    if (delete_shmem) {
-        verbose(VB_SHMEM, "Removing shared memory %s", handler->shm_filename);
-        if (shm_unlink(handler->shm_filename) != 0 && errno != ENOENT) {
-            fatal("shm_unlink error: %s", strerror(errno));
-        }
-    }
-
     free(handler);
 }
 
-- 
2.43.0


From b1d725001163cd1bc898b630f1db268f1986abdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:22 +0000
Subject: [PATCH 044/112] fix: DLB_BarrierAttach did not return the number of
 participants

---
 src/LB_comm/shmem_barrier.c | 10 ++++++++++
 src/LB_comm/shmem_barrier.h |  2 ++
 src/LB_core/node_barrier.c  |  7 ++++---
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index ad1ca41..3ab40f6 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -171,6 +171,12 @@ barrier_t* shmem_barrier__find(const char *barrier_name) {
  *   lewi: whether this barrier does lewi
  */
 barrier_t* shmem_barrier__register(const char *barrier_name, bool lewi) {
+    return shmem_barrier__register_participant(barrier_name, lewi, NULL);
+}
+
+/* Same as above, but also obtaining the updated number of participants */
+barrier_t* shmem_barrier__register_participant(const char *barrier_name, bool lewi,
+        int *num_participants) {
     if (shm_handler == NULL) return NULL;
     if (barrier_name == NULL) return NULL;
 
@@ -265,6 +271,10 @@ barrier_t* shmem_barrier__register(const char *barrier_name, bool lewi) {
     shmem_unlock(shm_handler);
 
     if (barrier != NULL) {
+        if (num_participants != NULL) {
+            *num_participants = participants;
+        }
+
         /* Attach if needed and print number of participants */
         verbose(VB_BARRIER, "Attached to barrier %s. Participants: %d",
                 barrier->name, participants);
diff --git a/src/LB_comm/shmem_barrier.h b/src/LB_comm/shmem_barrier.h
index 476190c..c0bbe87 100644
--- a/src/LB_comm/shmem_barrier.h
+++ b/src/LB_comm/shmem_barrier.h
@@ -33,6 +33,8 @@ int  shmem_barrier__get_system_id(void);
 int  shmem_barrier__get_max_barriers(void);
 barrier_t* shmem_barrier__find(const char *barrier_name);
 barrier_t* shmem_barrier__register(const char *barrier_name, bool lewi);
+barrier_t* shmem_barrier__register_participant(const char *barrier_name, bool lewi,
+        int *num_participants);
 int  shmem_barrier__attach(barrier_t *barrier);
 int  shmem_barrier__detach(barrier_t *barrier);
 void shmem_barrier__barrier(barrier_t *barrier);
diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index df967df..075502d 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -279,11 +279,12 @@ int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
                 bool lewi_barrier = parse_lewi_barrier(default_barrier_name,
                         spd->options.lewi_barrier,
                         spd->options.lewi_barrier_select, 0);
-                barrier_info->default_barrier = shmem_barrier__register(
+                int participants;
+                barrier_info->default_barrier = shmem_barrier__register_participant(
                         barrier_info->default_barrier_name,
-                        lewi_barrier);
+                        lewi_barrier, &participants);
                 // return number of participants
-                error = barrier_info->default_barrier ? 1 : DLB_ERR_NOMEM;
+                error = barrier_info->default_barrier ? participants : DLB_ERR_NOMEM;
             } else {
                 /* Default barrier already attached */
                 error = DLB_ERR_PERM;
-- 
2.43.0


From 07120ef2cb8547415d390b5623d7502201da169a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:35 +0000
Subject: [PATCH 045/112] fix: barriers were lost or blocked for ever after
 cleaning up a dead process

---
 src/LB_comm/shmem_barrier.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index 3ab40f6..296caa3 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -71,8 +71,19 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
     int i;
     for (i = 0; i < max_barriers; i++) {
         barrier_t *barrier = &shared_data->barriers[i];
+        if (barrier->participants == 0) continue;
+
         if (--barrier->participants == 0) {
             *barrier = (const barrier_t){};
+        } else if (pthread_rwlock_trywrlock(&barrier->rwlock) == 0) {
+            /* Create new barrier with the number of participants updated */
+            pthread_barrier_destroy(&barrier->barrier);
+            pthread_barrierattr_t attr;
+            pthread_barrierattr_init(&attr);
+            pthread_barrierattr_setpshared(&attr, PTHREAD_PROCESS_SHARED);
+            pthread_barrier_init(&barrier->barrier, &attr, barrier->participants);
+            pthread_barrierattr_destroy(&attr);
+            pthread_rwlock_unlock(&barrier->rwlock);
         }
     }
 }
-- 
2.43.0


From 4fe7203e49b208def10f1c013aac8f21d974dce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:07 +0000
Subject: [PATCH 046/112] fix: registering a barrier with the name of the
 default one attached the process twice

---
 src/LB_core/node_barrier.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index 075502d..4af873c 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -170,6 +170,14 @@ barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
         * participant or just a query for the pointer. If we have at least one
         * registered named barrier, we need to check the shared memory first. */
         barrier_info_t *barrier_info = spd->barrier_info;
+
+        /* The default barrier has its own functions. Registering it by its name
+        * would count this process as a participant twice. */
+        if (strncmp(barrier_name, barrier_info->default_barrier_name,
+                    BARRIER_NAME_MAX-1) == 0) {
+            return NULL;
+        }
+
         if (barrier_info->barrier_list[0] != NULL) {
             barrier = shmem_barrier__find(barrier_name);
             if (barrier != NULL) {
-- 
2.43.0


From d96f57c623ea520fba65b8a40fecb5297b461499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:27 +0000
Subject: [PATCH 047/112] fix: two threads registering the same barrier made
 the process attach twice

---
 src/LB_core/node_barrier.c | 63 ++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 34 deletions(-)

diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index 4af873c..5b3c950 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -178,48 +178,43 @@ barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
             return NULL;
         }
 
-        if (barrier_info->barrier_list[0] != NULL) {
-            barrier = shmem_barrier__find(barrier_name);
-            if (barrier != NULL) {
-                /* Barrier is found in shmem, check if it's registered within the spd. */
-                int i;
-                int max_barriers = barrier_info->max_barriers;
-                for (i=0; i<max_barriers; ++i) {
-                    if (barrier_info->barrier_list[i] == barrier) {
-                        /* Barrier already registered in spd */
-                        return barrier;
-                    }
-                }
-                /* Barrier is not registered within this spd */
-                barrier = NULL;
-            }
-        }
-
-        /* Register if not found */
-        if (barrier == NULL) {
-            bool lewi_barrier = parse_lewi_barrier(barrier_name,
-                    spd->options.lewi_barrier,
-                    spd->options.lewi_barrier_select, flags);
-            barrier = shmem_barrier__register(barrier_name, lewi_barrier);
-            if (barrier == NULL) return NULL;
-        }
-
-        /* Update the barrier list, if needed */
+        /* Two threads of this process may be registering the same barrier */
         int i;
         int max_barriers = barrier_info->max_barriers;
         pthread_mutex_lock(&mutex);
         {
-            for (i=0; i<max_barriers; ++i) {
-                if (barrier_info->barrier_list[i] == NULL) {
-                    barrier_info->barrier_list[i] = barrier;
-                    break;
+            bool registered = false;
+            if (barrier_info->barrier_list[0] != NULL) {
+                barrier = shmem_barrier__find(barrier_name);
+                if (barrier != NULL) {
+                    /* Barrier is found in shmem, check if it's registered within the spd. */
+                    for (i=0; i<max_barriers && !registered; ++i) {
+                        registered = barrier_info->barrier_list[i] == barrier;
+                    }
+                }
+            }
+
+            /* Register if not found */
+            if (!registered) {
+                bool lewi_barrier = parse_lewi_barrier(barrier_name,
+                        spd->options.lewi_barrier,
+                        spd->options.lewi_barrier_select, flags);
+                barrier = shmem_barrier__register(barrier_name, lewi_barrier);
+
+                /* Update the barrier list */
+                if (barrier != NULL) {
+                    for (i=0; i<max_barriers; ++i) {
+                        if (barrier_info->barrier_list[i] == NULL) {
+                            barrier_info->barrier_list[i] = barrier;
+                            break;
+                        }
+                    }
+                    ensure(i < max_barriers, "Cannot register Node Barrier, no space left in"
+                            " barrier_list.\nPlease, report bug at " PACKAGE_BUGREPORT);
                 }
             }
         }
         pthread_mutex_unlock(&mutex);
-
-        ensure(i < max_barriers, "Cannot register Node Barrier, no space left in"
-                " barrier_list.\nPlease, report bug at " PACKAGE_BUGREPORT);
     }
 
     return barrier;
-- 
2.43.0


From 53e0dd15e29d3eeb312cdea208d89a79964aca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:31 +0000
Subject: [PATCH 048/112] fix: a process could attach to a barrier that other
 process was removing

---
 src/LB_comm/shmem_barrier.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/LB_comm/shmem_barrier.c b/src/LB_comm/shmem_barrier.c
index 296caa3..519e66d 100644
--- a/src/LB_comm/shmem_barrier.c
+++ b/src/LB_comm/shmem_barrier.c
@@ -37,6 +37,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
+#include <unistd.h>
 
 typedef struct barrier_flags {
     bool initialized:1;
@@ -59,6 +60,7 @@ typedef struct {
 
 enum { SHMEM_BARRIER_VERSION = 6 };
 enum { SHMEM_TIMEOUT_SECONDS = 1 };
+enum { SHMEM_BARRIER_POLL_USECS = 100 };
 
 static int max_barriers;
 static shmem_handler_t *shm_handler = NULL;
@@ -294,9 +296,10 @@ barrier_t* shmem_barrier__register_participant(const char *barrier_name, bool le
     return barrier;
 }
 
-/* The attach function should not have any races with the global shared memory.
- * At most, 'barrier' points to an unitialized barrier and error is returned.
- * */
+/* The attach function competes with the detach function, which may remove the
+ * barrier together with its lock, so the shared memory lock is also needed to
+ * check whether the barrier is still valid. While other processes are inside the
+ * barrier, this function waits without holding it. */
 int shmem_barrier__attach(barrier_t *barrier) {
     if (barrier == NULL) return DLB_ERR_UNKNOWN;
     if (shm_handler == NULL) return DLB_ERR_NOSHMEM;
@@ -305,14 +308,18 @@ int shmem_barrier__attach(barrier_t *barrier) {
     int count;
 #endif
     int participants;
-    pthread_rwlock_wrlock(&barrier->rwlock);
-    {
+    while (true) {
+        shmem_lock(shm_handler);
         if (!barrier->flags.initialized
                 || barrier->participants == 0) {
-            pthread_rwlock_unlock(&barrier->rwlock);
+            shmem_unlock(shm_handler);
             return DLB_ERR_PERM;
         }
-
+        if (pthread_rwlock_trywrlock(&barrier->rwlock) == 0) break;
+        shmem_unlock(shm_handler);
+        usleep(SHMEM_BARRIER_POLL_USECS);
+    }
+    {
         /* Update participants */
         participants = ++barrier->participants;
 
@@ -329,6 +336,7 @@ int shmem_barrier__attach(barrier_t *barrier) {
 #endif
     }
     pthread_rwlock_unlock(&barrier->rwlock);
+    shmem_unlock(shm_handler);
 
     ensure(count == 0, "Barrier Shared memory inconsistency while attaching "
             "barrier (count = %d).\n" "Please, report at " PACKAGE_BUGREPORT,
-- 
2.43.0


From 374074f658a34844dd68f42363e0ca5f420c5d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:57 +0000
Subject: [PATCH 049/112] fix: two threads detaching or attaching the default
 barrier counted twice

---
 src/LB_core/node_barrier.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index 5b3c950..e7f5afc 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -277,6 +277,7 @@ int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
     if (spd->options.barrier) {
         barrier_info_t *barrier_info = spd->barrier_info;
         if (barrier == NULL) {
+            pthread_mutex_lock(&mutex);
             if (barrier_info->default_barrier == NULL) {
                 /* Register default barrier again */
                 bool lewi_barrier = parse_lewi_barrier(default_barrier_name,
@@ -292,6 +293,7 @@ int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
                 /* Default barrier already attached */
                 error = DLB_ERR_PERM;
             }
+            pthread_mutex_unlock(&mutex);
         } else if (unlikely(barrier == barrier_info->default_barrier)) {
             /* barrier provided is the default barrier, already attached.
              * (default_barrier pointer is never exposed, keep this one just in case) */
@@ -336,6 +338,7 @@ int node_barrier_detach(subprocess_descriptor_t *spd, barrier_t *barrier) {
     if (spd->options.barrier) {
         barrier_info_t *barrier_info = spd->barrier_info;
         if (barrier == NULL) {
+            pthread_mutex_lock(&mutex);
             if (barrier_info->default_barrier != NULL) {
                 /* Detach default barrier */
                 error = shmem_barrier__detach(barrier_info->default_barrier);
@@ -346,6 +349,7 @@ int node_barrier_detach(subprocess_descriptor_t *spd, barrier_t *barrier) {
                 /* Default barrier already detached */
                 error = DLB_ERR_PERM;
             }
+            pthread_mutex_unlock(&mutex);
         } else if (unlikely(barrier == barrier_info->default_barrier)) {
             /* Detach default barrier.
              * (default_barrier pointer is never exposed, keep this one just in case) */
-- 
2.43.0


From 191830885c1fc0b5e8e603e710824c59d78de38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:02 +0000
Subject: [PATCH 050/112] fix: a process that left a CPU while it was being
 reclaimed was queued for it, even if already finalized

---
 src/LB_comm/shmem_cpuinfo.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index e9fd865..27072cd 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1750,8 +1750,9 @@ int shmem_cpuinfo__return_cpu_mask(pid_t pid, const cpu_set_t *mask,
 static inline void shmem_cpuinfo__return_async(pid_t pid, cpuid_t cpuid) {
     cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
 
-    ensure(cpuinfo->owner != pid
-            && cpuinfo->guest == pid, "cpuinfo inconsistency in %s", __func__);
+    /* The guest may have left by itself (lend, disable, finalize...) since the CPU
+     * was reclaimed. In that case the CPU is not of this process anymore. */
+    if (cpuinfo->guest != pid || cpuinfo->owner == pid) return;
 
     /* 'cpuid' should only be a guested non-owned CPU */
     if (cpuinfo->state == CPU_BUSY) {
-- 
2.43.0


From e892de7e8128f59df93a253a5fedfca216256611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 051/112] fix: asynchronous messages could be sent to a helper
 that was being removed

---
 src/LB_comm/shmem_async.c | 65 ++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/LB_comm/shmem_async.c b/src/LB_comm/shmem_async.c
index 467632c..68086d9 100644
--- a/src/LB_comm/shmem_async.c
+++ b/src/LB_comm/shmem_async.c
@@ -102,10 +102,11 @@ static helper_t* get_helper(pid_t pid) {
     return NULL;
 }
 
-static void enqueue_message(helper_t *helper, const message_t *message) {
+/* Returns false if the message does not fit */
+static bool enqueue_message(helper_t *helper, const message_t *message) {
     /* Discard message if helper does not accept new inputs */
     if (helper->joinable) {
-        return;
+        return true;
     }
 
     pthread_mutex_lock(&helper->q_lock);
@@ -119,7 +120,7 @@ static void enqueue_message(helper_t *helper, const message_t *message) {
     unsigned int next_head = (helper->q_head + 1) % QUEUE_SIZE;
     if (__builtin_expect((next_head == helper->q_tail), 0)) {
         pthread_mutex_unlock(&helper->q_lock);
-        fatal("Max petitions requested for asynchronous thread");
+        return false;
     }
 
     /* Enqueue message and update head */
@@ -131,6 +132,26 @@ static void enqueue_message(helper_t *helper, const message_t *message) {
     pthread_cond_signal(&helper->q_wait_data);
 
     pthread_mutex_unlock(&helper->q_lock);
+
+    return true;
+}
+
+/* Send a message to the helper of process pid, if it exists. The shmem lock prevents
+ * the helper from being removed, or its spot reused, in the meantime. */
+static void send_message(pid_t pid, const message_t *message) {
+    if (shm_handler == NULL) return;
+
+    bool enqueued = true;
+    shmem_lock(shm_handler);
+    {
+        helper_t *helper = get_helper(pid);
+        if (helper) {
+            enqueued = enqueue_message(helper, message);
+        }
+    }
+    shmem_unlock(shm_handler);
+
+    fatal_cond(!enqueued, "Max petitions requested for asynchronous thread");
 }
 
 static void dequeue_message(helper_t *helper, message_t *message) {
@@ -300,7 +321,8 @@ int shmem_async_finalize(pid_t pid) {
     if (helper) {
         /* Enqueue JOIN message  */
         message_t message = { .action = ACTION_JOIN };
-        enqueue_message(helper, &message);
+        fatal_cond(!enqueue_message(helper, &message),
+                "Max petitions requested for asynchronous thread");
 
         /* Wait helper thread to finish */
         pthread_join(helper->pth, NULL);
@@ -333,49 +355,34 @@ int shmem_async_finalize(pid_t pid) {
 
 void shmem_async_enable_cpu(pid_t pid, int cpuid) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, enable cpuid %d", pid, cpuid);
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_ENABLE_CPU, .cpuid = cpuid };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_ENABLE_CPU, .cpuid = cpuid };
+    send_message(pid, &message);
 }
 
 void shmem_async_enable_cpu_set(pid_t pid, const cpu_set_t *cpu_set) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, enable cpu set %s",
             pid, mu_to_str(cpu_set));
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_ENABLE_CPU_SET, .cpu_set = *cpu_set };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_ENABLE_CPU_SET, .cpu_set = *cpu_set };
+    send_message(pid, &message);
 }
 
 void shmem_async_disable_cpu(pid_t pid, int cpuid) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, disable cpuid %d", pid, cpuid);
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_DISABLE_CPU, .cpuid = cpuid };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_DISABLE_CPU, .cpuid = cpuid };
+    send_message(pid, &message);
 }
 
 void shmem_async_disable_cpu_set(pid_t pid, const cpu_set_t *cpu_set) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, disable cpu set %s",
             pid, mu_to_str(cpu_set));
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_DISABLE_CPU_SET, .cpu_set = *cpu_set };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_DISABLE_CPU_SET, .cpu_set = *cpu_set };
+    send_message(pid, &message);
 }
 
 void shmem_async_set_num_cpus(pid_t pid, int ncpus) {
     verbose(VB_ASYNC, "Enqueuing petition for pid: %d, set num CPUs %d", pid, ncpus);
-    helper_t *helper = get_helper(pid);
-    if (helper) {
-        message_t message = { .action = ACTION_SET_NUM_CPUS, .ncpus = ncpus };
-        enqueue_message(helper, &message);
-    }
+    message_t message = { .action = ACTION_SET_NUM_CPUS, .ncpus = ncpus };
+    send_message(pid, &message);
 }
 
 int shmem_async__version(void) {
-- 
2.43.0


From ef8f4d5a3307a8bbf89cc4b81fbbb548cbaee479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:17 +0000
Subject: [PATCH 052/112] fix: DLB_ReturnCpuMask reported success without
 returning any CPU of the mask

---
 src/LB_policies/lewi_mask.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index b21c135..5db9ce5 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -792,10 +792,10 @@ int lewi_mask_ReturnCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t
         for (int cpuid = mu_get_first_cpu(&cpus_to_return); cpuid >= 0;
                 cpuid = mu_get_next_cpu(&cpus_to_return, cpuid)) {
             disable_cpu(&spd->pm, cpuid);
+            error = DLB_SUCCESS;
         }
         mu_substract(&lewi_info->pending_reclaimed_cpus,
                 &lewi_info->pending_reclaimed_cpus, &cpus_to_return);
-        error = DLB_SUCCESS;
     }
 
     return error;
-- 
2.43.0


From 47b2e9aa822306db181a7bcca618f679b4e6b44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:17 +0000
Subject: [PATCH 053/112] fix: CPU ids and masks out of the node were used to
 access the shared memory

---
 src/LB_comm/shmem_cpuinfo.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 27072cd..51dedf6 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -668,7 +668,7 @@ static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks)
 
 int shmem_cpuinfo__lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error = DLB_SUCCESS;
     //DLB_DEBUG( cpu_set_t freed_cpus; )
@@ -720,7 +720,7 @@ int shmem_cpuinfo__lend_cpu_mask(pid_t pid, const cpu_set_t *restrict mask,
     shmem_lock(shm_handler);
     {
         for (int cpuid = mu_get_first_cpu(mask);
-                cpuid >= 0;
+                cpuid >= 0 && cpuid < node_size;
                 cpuid = mu_get_next_cpu(mask, cpuid)) {
             lend_cpu(pid, cpuid, tasks);
 
@@ -865,7 +865,7 @@ int shmem_cpuinfo__reclaim_all(pid_t pid, array_cpuinfo_task_t *restrict tasks)
 
 int shmem_cpuinfo__reclaim_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     //DLB_DEBUG( cpu_set_t recovered_cpus; )
@@ -1181,7 +1181,7 @@ static int acquire_cpus_in_array_cpuid_t(pid_t pid,
 
 int shmem_cpuinfo__acquire_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -1534,7 +1534,7 @@ static int borrow_cpus_in_cpu_set_t(pid_t pid,
 
 int shmem_cpuinfo__borrow_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -1711,7 +1711,7 @@ int shmem_cpuinfo__return_all(pid_t pid, array_cpuinfo_task_t *restrict tasks) {
 
 int shmem_cpuinfo__return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks) {
 
-    if (cpuid >= node_size) return DLB_ERR_PERM;
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
 
     int error;
     shmem_lock(shm_handler);
@@ -2136,6 +2136,8 @@ int shmem_cpuinfo__get_number_of_non_owned_cpus(pid_t pid) {
 }
 
 int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
+    if (cpuid < 0 || cpuid >= node_size) return DLB_ERR_PERM;
+
     int error = DLB_NOTED;
     cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
 
-- 
2.43.0


From 4a4fe39c588fe1a413f5889b5d9e24794d5160b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:17 +0000
Subject: [PATCH 054/112] fix: a CPU obtained with DLB_CheckCpuAvailability
 could not be reclaimed or returned

---
 src/LB_comm/shmem_cpuinfo.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 51dedf6..218fe59 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2152,9 +2152,12 @@ int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
         /* Assign new guest if the CPU is empty */
         shmem_lock(shm_handler);
         {
-            if (cpuinfo->guest == NOBODY) {
+            if (cpuinfo->guest == NOBODY
+                    && (cpuinfo->owner == pid || cpuinfo->state == CPU_LENT)
+                    && core_is_eligible(pid, cpuid)) {
                 cpuinfo->guest = pid;
                 CPU_CLR(cpuid, &shdata->free_cpus);
+                update_occupied_cores(cpuinfo->owner, cpuid);
                 error = DLB_SUCCESS;
             }
         }
-- 
2.43.0


From a1fd0388d8a3aca9712fa4686db735b3a89006bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:55 +0000
Subject: [PATCH 055/112] fix: reading an integer option of 8 or more digits
 overran a static buffer

---
 src/support/options.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/options.c b/src/support/options.c
index c3f3da6..78cabe3 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -621,7 +621,7 @@ static int set_value(option_type_t type, void *option, const char *str_value) {
 }
 
 static const char * get_value(option_type_t type, const void *option) {
-    static char int_value[8];
+    static char int_value[16];
     switch(type) {
         case OPT_BOOL_T:
             return *(bool*)option ? "yes" : "no";
-- 
2.43.0


From 4798e844a080136123a1a054575e575530a16c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:55 +0000
Subject: [PATCH 056/112] fix: crash if --talp-output-file is given both to
 DLB_Init and in DLB_ARGS

The text of the option was taken for a pointer to text.
---
 src/support/options.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/support/options.c b/src/support/options.c
index 78cabe3..2c3225d 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -673,8 +673,7 @@ static bool values_are_equivalent(option_type_t type, const char *value1, const
         case OPT_STR_T:
             return strcmp(value1, value2) == 0;
         case OPT_PTR_PATH_T:
-            return *(const char**)value1 && *(const char**)value2
-                && strcmp(*(const char**)value1, *(const char**)value2) == 0;
+            return strcmp(value1, value2) == 0;
         case OPT_VB_T:
             return equivalent_verbose_opts(value1, value2);
         case OPT_VBFMT_T:
-- 
2.43.0


From 9c12a15064ace4cf54cb9179936d16736d0c29b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:55 +0000
Subject: [PATCH 057/112] fix: crash on a lone '=' in the DLB arguments, and
 values cut at '='

strtok_r returns NULL for a token made of delimiters only, and only the part
of a value up to its first '=' was used, e.g., in --talp-output-file=/a=b/file.
---
 src/support/options.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/support/options.c b/src/support/options.c
index 2c3225d..a05d790 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -781,9 +781,9 @@ static void parse_dlb_args(char *dlb_args, const char *arg_name, char* arg_value
             /* Option is of the form --argument=value */
             char *end_equal;
             char *argument = strtok_r(token, "=", &end_equal);
-            if (strcmp(argument, arg_name) == 0) {
-                /* Obtain value */
-                char *value = strtok_r(NULL, "=", &end_equal);
+            if (argument && strcmp(argument, arg_name) == 0) {
+                /* Obtain value: the rest of the token, it may contain '=' */
+                char *value = strtok_r(NULL, "", &end_equal);
                 if (value) {
                     snprintf(arg_value, arg_max_len, "%s", value);
                 } else {
-- 
2.43.0


From 6e7ab9baa3408b787e6bd5a34ebafa2ac430c4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:55 +0000
Subject: [PATCH 058/112] fix: DLB arguments separated by tabs or new lines
 were not recognized

Only blanks separated the tokens, but any whitespace was skipped when removing
them from the arguments, so that a wrong position, even past the end of the
buffer, could be edited.
---
 src/support/options.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/support/options.c b/src/support/options.c
index a05d790..e42ad13 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -761,13 +761,14 @@ static void copy_value(option_type_t type, void *dest, const char *src) {
 /* Parse DLB_ARGS and remove argument if found */
 static void parse_dlb_args(char *dlb_args, const char *arg_name, char* arg_value, size_t arg_max_len) {
     *arg_value = 0;
-    /* Tokenize a copy of dlb_args with " "(blank) delimiter */
+    /* Tokenize a copy of dlb_args with whitespace delimiters, as in isspace() */
+    static const char delim[] = " \t\n\v\f\r";
     char *progress = dlb_args;
     char *end_space = NULL;
     size_t len = strlen(dlb_args) + 1;
     char *dlb_args_copy = malloc(sizeof(char)*len);
     strcpy(dlb_args_copy, dlb_args);
-    char *token = strtok_r(dlb_args_copy, " ", &end_space);
+    char *token = strtok_r(dlb_args_copy, delim, &end_space);
     while (token) {
         /* Each token is a complete string representing an option */
 
@@ -818,7 +819,7 @@ static void parse_dlb_args(char *dlb_args, const char *arg_name, char* arg_value
         }
 
         /* next token */
-        token = strtok_r(NULL, " ", &end_space);
+        token = strtok_r(NULL, delim, &end_space);
     }
     free(dlb_args_copy);
 }
-- 
2.43.0


From 000c97967e70d83c8d54141f0900a6ebc289b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:14 +0000
Subject: [PATCH 059/112] fix: lists of flags longer than 62 characters were
 cut

For instance, --verbose with more than 7 or 8 components lost the last ones.
Only the options stored as text have a limited size.
---
 src/support/options.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/support/options.c b/src/support/options.c
index e42ad13..d460cfa 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -861,11 +861,11 @@ void options_init(options_t *options, const char *dlb_args) {
         /* Set-up specific argument length */
         size_t arg_max_len;
         switch (entry->type) {
-            case OPT_PTR_PATH_T:
-                arg_max_len = PATH_MAX-1;
+            case OPT_STR_T:
+                arg_max_len = MAX_OPTION_LENGTH-1;
                 break;
             default:
-                arg_max_len = MAX_OPTION_LENGTH-1;
+                arg_max_len = PATH_MAX-1;
                 break;
         }
 
@@ -999,11 +999,11 @@ void options_parse_entry(const char *var_name, void *option) {
         /* Set-up specific argument length */
         size_t arg_max_len;
         switch (entry->type) {
-            case OPT_PTR_PATH_T:
-                arg_max_len = PATH_MAX-1;
+            case OPT_STR_T:
+                arg_max_len = MAX_OPTION_LENGTH-1;
                 break;
             default:
-                arg_max_len = MAX_OPTION_LENGTH-1;
+                arg_max_len = PATH_MAX-1;
                 break;
         }
 
-- 
2.43.0


From c1d586e9caa802dc7e3263880e526d9ab8d09c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:14 +0000
Subject: [PATCH 060/112] fix: an empty list of flags was shown as the last one
 shown before

Affects --verbose-format, --debug-opts and --lewi-ompt=none, if read or printed
after another value.
---
 src/support/types.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/support/types.c b/src/support/types.c
index 961747b..c18a8de 100644
--- a/src/support/types.c
+++ b/src/support/types.c
@@ -219,6 +219,7 @@ int parse_verbose_fmt(const char *str, verbose_fmt_t *value) {
 const char* verbose_fmt_tostr(verbose_fmt_t value) {
     static char str[sizeof(verbose_fmt_choices_str)] = "";
     char *p = str;
+    *p = '\0';
     int i;
     for (i=0; i<verbose_fmt_nelems; ++i) {
         if (value & verbose_fmt_values[i]) {
@@ -353,6 +354,7 @@ int parse_debug_opts(const char *str, debug_opts_t *value) {
 const char* debug_opts_tostr(debug_opts_t value) {
     static char str[sizeof(debug_opts_choices_str)] = "";
     char *p = str;
+    *p = '\0';
     int i;
     for (i=0; i<debug_opts_nelems; ++i) {
         if (value & debug_opts_values[i]) {
@@ -726,6 +728,11 @@ int parse_omptool_opts(const char *str, omptool_opts_t *value) {
 }
 
 const char* omptool_opts_tostr(omptool_opts_t value) {
+    // particular case
+    if (value == OMPTOOL_OPTS_NONE) {
+        return "none";
+    }
+
     static char str[sizeof(omptool_opts_choices_str)] = "";
     char *p = str;
     int i;
-- 
2.43.0


From 342d7f68308056827de59de74c8bfe24659e63a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:14 +0000
Subject: [PATCH 061/112] fix: buffer overrun showing --talp-summary if it has
 deprecated values

---
 src/support/types.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/support/types.c b/src/support/types.c
index c18a8de..1ab4a16 100644
--- a/src/support/types.c
+++ b/src/support/types.c
@@ -507,7 +507,8 @@ const char* talp_summary_tostr(talp_summary_t value) {
         return "all";
     }
 
-    static char str[sizeof(talp_summary_choices_str)] = "";
+    /* deprecated values are not listed in the choices, but they may be set */
+    static char str[sizeof("pop-metrics:pop-raw:node:process")] = "";
     char *p = str;
     int i;
     for (i=2; i<talp_summary_nelems; ++i) {
-- 
2.43.0


From 8fe3d086dd4f7f8b2dfa4a027146d4bf0282b9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:14 +0000
Subject: [PATCH 062/112] fix: integer options out of range were accepted with
 another value

---
 src/support/types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/types.c b/src/support/types.c
index 1ab4a16..bbc180e 100644
--- a/src/support/types.c
+++ b/src/support/types.c
@@ -79,7 +79,7 @@ int parse_int(const char *str, int *value) {
     char *endptr;
     long val = strtol(str, &endptr, 0);
     if ((val == 0 && endptr == str)
-            || ((val == LONG_MIN || val == LONG_MAX) && errno == ERANGE)) {
+            || val < INT_MIN || val > INT_MAX) {
         debug_warning("Error parsing integer. str: %s, strlen: %lu, val: %ld, "
                 "errno: %d, strptr: %p, endptr: %p", str, strlen(str), val,
                 errno, str, endptr);
-- 
2.43.0


From aeb9073e4c392e606eae69d168e2d5ea96d5ba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:14 +0000
Subject: [PATCH 063/112] fix: DLB_PrintVariables aborted if --talp-output-file
 is a long path

---
 src/support/options.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/options.c b/src/support/options.c
index d460cfa..7e8a659 100644
--- a/src/support/options.c
+++ b/src/support/options.c
@@ -1079,7 +1079,7 @@ void options_print_variables(const options_t *options, bool print_extended) {
     printbuffer_init(&buffer);
 
     /* Set up intermediate buffer per entry */
-    enum { MAX_ENTRY_LEN = 256 };
+    enum { MAX_ENTRY_LEN = PATH_MAX + 256 };
     char entry_buffer[MAX_ENTRY_LEN];
 
     /* Header (last \n is not needed) */
-- 
2.43.0


From 8353242da8edd01b626569a8a084c536212d32ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:09 +0000
Subject: [PATCH 064/112] fix: infinite recursion if DLB_ARGS contains --silent
 with an empty value

---
 src/support/debug.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/support/debug.c b/src/support/debug.c
index 32f6a2a..01566b1 100644
--- a/src/support/debug.c
+++ b/src/support/debug.c
@@ -167,7 +167,10 @@ void fatal0(const char *fmt, ...) {
 static void vwarning(const char *fmt, va_list list) {
     /* Parse --silent option if warning() was invoked before init */
     if (unlikely(vb_opts == VB_UNDEF)) {
+        /* Parsing the option may also invoke warning(), avoid recursion */
+        vb_opts = VB_CLEAR;
         options_parse_entry("--silent", &silent);
+        vb_opts = VB_UNDEF;
     }
 
     if (!silent) {
-- 
2.43.0


From ba2e232dd57860027b52096d71a449a586d5f586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:09 +0000
Subject: [PATCH 065/112] fix: printing a line longer than the print buffer
 overran it

---
 src/support/debug.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/support/debug.c b/src/support/debug.c
index 01566b1..86b4b82 100644
--- a/src/support/debug.c
+++ b/src/support/debug.c
@@ -402,7 +402,9 @@ void printbuffer_append(print_buffer_t *buffer, const char *line) {
     size_t line_len = strlen(line) + 2; /* + '\n\0' */
     size_t buffer_len = strlen(buffer->addr);
     if (buffer_len + line_len > buffer->size) {
-        buffer->size *= 2;
+        while (buffer_len + line_len > buffer->size) {
+            buffer->size *= 2;
+        }
         void *p = realloc(buffer->addr, buffer->size*sizeof(char));
         if (p) {
             buffer->addr = p;
-- 
2.43.0


From 64d14aa10e7fd7dad9a0a2042593dcb0b4955a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:45 +0000
Subject: [PATCH 066/112] fix: a range of a single CPU was ignored when parsing
 a mask

---
 src/support/mask_utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index bed6b9e..1186052 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -1086,7 +1086,7 @@ void mu_parse_mask( const char *str, cpu_set_t *mask ) {
                 ptr = endptr;
 
                 // Valid range
-                if ( end > start ) {
+                if ( end >= start ) {
                     for ( unsigned long i=start; i<=end && i<mu_cpuset_setsize; i++ ) {
                         CPU_SET( i, mask );
                     }
-- 
2.43.0


From a9eaf5505c6d1a47e833c12726037a05949b59c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:45 +0000
Subject: [PATCH 067/112] fix: writing a mask in Slurm format overran its
 buffer by one byte

---
 src/support/mask_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index 1186052..ec33ebf 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -1169,8 +1169,8 @@ void mu_get_quoted_mask(const cpu_set_t *mask, char *str, size_t namelen) {
 }
 
 char * mu_parse_to_slurm_format(const cpu_set_t *mask) {
-    char *str = malloc((mu_cpuset_setsize >> 2) + 3);
-    if (str < 0)
+    char *str = malloc((mu_cpuset_setsize + 3) / 4 + 3);
+    if (str == NULL)
         return NULL;
     unsigned int offset = 2;
     unsigned long long val = 0;
-- 
2.43.0


From cec229825219dcd4016484dd328b238adc6ec8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:45 +0000
Subject: [PATCH 068/112] fix: the core of the CPU following the last one was
 read out of bounds

---
 src/support/mask_utils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index ec33ebf..1a4161e 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -552,7 +552,7 @@ int mu_get_num_cores(void) {
 
 int mu_get_core_id(int cpuid) {
 
-    if (cpuid < 0 || (unsigned)cpuid > sys.num_cpus) return -1;
+    if (cpuid < 0 || (unsigned)cpuid >= sys.num_cpus) return -1;
 
     for (unsigned int core_id = 0; core_id < sys.num_cores; ++core_id) {
         if (CPU_ISSET_S(cpuid, mu_cpuset_alloc_size,
@@ -566,14 +566,14 @@ int mu_get_core_id(int cpuid) {
 
 const mu_cpuset_t* mu_get_core_mask(int cpuid) {
 
-    if (cpuid < 0 || (unsigned)cpuid > sys.num_cpus) return NULL;
+    if (cpuid < 0 || (unsigned)cpuid >= sys.num_cpus) return NULL;
 
     return sys.core_masks_by_cpuid[cpuid];
 }
 
 const mu_cpuset_t* mu_get_core_mask_by_coreid(int core_id) {
 
-    if (core_id < 0 || (unsigned)core_id > sys.num_cores) return NULL;
+    if (core_id < 0 || (unsigned)core_id >= sys.num_cores) return NULL;
 
     return &sys.core_masks_by_coreid[core_id];
 }
-- 
2.43.0


From b337fc787d4824faa5abf1aeed4b7248db8d3204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:45 +0000
Subject: [PATCH 069/112] fix: inconsistent order of CPUs if a process owns
 only part of a core

---
 src/support/mask_utils.c | 42 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index 1a4161e..9fd867b 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -1208,6 +1208,16 @@ static int cmp_cpuids(cpuid_t cpuid1, cpuid_t cpuid2) {
     }
 }
 
+/* Compare CPUs starting from first_core, then ascending */
+static int cmp_cpuids_from_core(cpuid_t cpuid1, cpuid_t cpuid2, int first_core) {
+    bool cpu1_before = mu_get_core_id(cpuid1) < first_core;
+    bool cpu2_before = mu_get_core_id(cpuid2) < first_core;
+    if (cpu1_before != cpu2_before) {
+        return cpu1_before ? 1 : -1;
+    }
+    return cmp_cpuids(cpuid1, cpuid2);
+}
+
 /* Compare CPUs so that:
  *  - owned CPUs first, in ascending order
  *  - non-owned later, starting from the first owned, then ascending
@@ -1234,20 +1244,8 @@ int mu_cmp_cpuids_by_ownership(const void *cpuid1, const void *cpuid2, void *mas
             return 1;
         } else {
             /* none is owned */
-            int first_cpu = mu_get_first_cpu(process_mask);
-            int first_core = mu_get_core_id(first_cpu);
-            int cpu1_core_id = mu_get_core_id(_cpuid1);
-            int cpu2_core_id = mu_get_core_id(_cpuid2);
-            if ((cpu1_core_id > first_core
-                        && cpu2_core_id > first_core)
-                    || (cpu1_core_id < first_core
-                        && cpu2_core_id < first_core)) {
-                /* Both CPUs are either before or after the process mask */
-                return cmp_cpuids(_cpuid1, _cpuid2);
-            } else {
-                /* Compare with respect to process mask */
-                return cmp_cpuids(first_cpu, _cpuid1);
-            }
+            return cmp_cpuids_from_core(_cpuid1, _cpuid2,
+                    mu_get_core_id(mu_get_first_cpu(process_mask)));
         }
     }
 }
@@ -1296,20 +1294,8 @@ int mu_cmp_cpuids_by_affinity(const void *cpuid1, const void *cpuid2, void *affi
     /* e.g.: level0: [2,3], level1: [0,7] -> [4,5,6,7,0,1] */
     if (cpu1_level == 1) {
         cpu_set_t *level0_mask = _affinity;
-        int first_cpu = mu_get_first_cpu(level0_mask);
-        int first_core = mu_get_core_id(first_cpu);
-        int cpu1_core_id = mu_get_core_id(_cpuid1);
-        int cpu2_core_id = mu_get_core_id(_cpuid2);
-        if ((cpu1_core_id > first_core
-                    && cpu2_core_id > first_core)
-                || (cpu1_core_id < first_core
-                    && cpu2_core_id < first_core)) {
-            /* Both CPUs are either before or after the process mask */
-            return cmp_cpuids(_cpuid1, _cpuid2);
-        } else {
-            /* Compare with respect to process mask */
-            return cmp_cpuids(first_cpu, _cpuid1);
-        }
+        return cmp_cpuids_from_core(_cpuid1, _cpuid2,
+                mu_get_core_id(mu_get_first_cpu(level0_mask)));
     }
 
     /* TODO: compute numa distance */
-- 
2.43.0


From 5512c7ce1d7bcf401c2b4550e896aa9617f5603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:00 +0000
Subject: [PATCH 070/112] fix: crash if the system has sparse core ids, offline
 CPUs, or NUMA nodes without CPUs

---
 src/support/mask_utils.c | 65 +++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 20 deletions(-)

diff --git a/src/support/mask_utils.c b/src/support/mask_utils.c
index 9fd867b..85009f4 100644
--- a/src/support/mask_utils.c
+++ b/src/support/mask_utils.c
@@ -204,6 +204,31 @@ static void init_system(unsigned int num_cpus, unsigned int num_cores,
     free(node_masks);
 }
 
+/* Remove the empty cpusets of an array, keep the order of the others */
+static unsigned int compact_cpusets(mu_cpuset_t *cpusets, unsigned int size) {
+    unsigned int count = 0;
+    for (unsigned int i = 0; i < size; ++i) {
+        if (cpusets[i].set != NULL) {
+            cpusets[count++] = cpusets[i];
+        }
+    }
+    return count;
+}
+
+/* Core ids may not be contiguous, or some core may have no CPUs */
+static void compact_core_masks(unsigned int size) {
+    sys.num_cores = compact_cpusets(sys.core_masks_by_coreid, size);
+    for (unsigned int core_id = 0; core_id < sys.num_cores; ++core_id) {
+        mu_cpuset_t *core_cpuset = &sys.core_masks_by_coreid[core_id];
+        for (int cpuid = core_cpuset->first_cpuid;
+                cpuid >= 0;
+                cpuid = mu_get_next_cpu(core_cpuset->set, cpuid)) {
+            /* Save reference to another array indexed by cpuid */
+            sys.core_masks_by_cpuid[cpuid] = core_cpuset;
+        }
+    }
+}
+
 static int parse_hwloc(void) {
 #ifdef HWLOC_LIB
     /* Check runtime library compatibility */
@@ -241,12 +266,6 @@ static int parse_hwloc(void) {
             ++num_valid_cores;
             mu_cpuset_t *core_cpuset = &sys.core_masks_by_coreid[core_id];
             mu_cpuset_from_hwloc_bitmap(core_cpuset, obj->cpuset, topology);
-            for (int cpuid = core_cpuset->first_cpuid;
-                    cpuid >= 0;
-                    cpuid = hwloc_bitmap_next(obj->cpuset, cpuid)) {
-                /* Save reference to another array indexed by cpuid */
-                sys.core_masks_by_cpuid[cpuid] = core_cpuset;
-            }
         }
     }
 
@@ -256,11 +275,12 @@ static int parse_hwloc(void) {
         verbose(VB_AFFINITY, "HWLOC found %d cores but only %d with a valid mask",
                 sys.num_cores, num_valid_cores);
     }
+    compact_core_masks(sys.num_cores);
 
     /*** NUMA Nodes ***/
     hwloc_obj_type_t node = HWLOC_OBJ_NODE;
     sys.num_nodes = hwloc_get_nbobjs_by_type(topology, node);
-    sys.node_masks = calloc(sys.num_cores, sizeof(mu_cpuset_t));
+    sys.node_masks = calloc(sys.num_nodes, sizeof(mu_cpuset_t));
     unsigned int num_valid_nodes = 0;
     for (unsigned int node_id = 0; node_id < sys.num_nodes; ++node_id) {
         hwloc_obj_t obj = hwloc_get_obj_by_type(topology, node, node_id);
@@ -277,6 +297,7 @@ static int parse_hwloc(void) {
         verbose(VB_AFFINITY, "HWLOC found %d nodes but only %d with a valid mask",
                 sys.num_nodes, num_valid_nodes);
     }
+    sys.num_nodes = compact_cpusets(sys.node_masks, sys.num_nodes);
 
     hwloc_topology_destroy(topology);
 
@@ -340,7 +361,6 @@ static void parse_system_files(void) {
     // number of cores yet
     sys.core_masks_by_coreid = calloc(sys.num_cpus, sizeof(mu_cpuset_t));
     sys.core_masks_by_cpuid = calloc(sys.num_cpus, sizeof(mu_cpuset_t*));
-    int num_cores = 0;
     DIR *dir = opendir(PATH_SYSTEM_CPUS);
     if (dir) {
         struct dirent *d;
@@ -361,18 +381,22 @@ static void parse_system_files(void) {
                         "/%.8s/topology/thread_siblings_list", d->d_name);
                 parse_mask_from_file(filename, &core_mask);
 
+                /* CPUs that are offline do not have topology */
+                if ((unsigned)cpu_id >= sys.num_cpus || CPU_COUNT(&core_mask) == 0) continue;
+
                 /* Get core id, in some architectures this value may not be reliable */
                 snprintf(filename, 64, PATH_SYSTEM_CPUS "/%.8s/topology/core_id",
                         d->d_name);
                 int core_id = parse_int_from_file(filename);
 
                 /* Try to respect parsed core_id */
-                if (core_id >= 0 && core_id < 1024) {
+                if (core_id < 0 || (unsigned)core_id >= sys.num_cpus) {
+                    core_id = -1;
+                } else {
                     mu_cpuset_t *core_cpuset = &sys.core_masks_by_coreid[core_id];
                     if (core_cpuset->set == NULL) {
                         /* Save core mask */
                         mu_cpuset_from_glibc_sched_affinity(core_cpuset, &core_mask);
-                        ++num_cores;
                     } else if (CPU_EQUAL_S(mu_cpuset_alloc_size, core_cpuset->set, &core_mask)) {
                         /* Core mask already saved */
                     } else {
@@ -387,7 +411,6 @@ static void parse_system_files(void) {
                     if (core_cpuset->set == NULL) {
                         /* Save core mask */
                         mu_cpuset_from_glibc_sched_affinity(core_cpuset, &core_mask);
-                        ++num_cores;
                         core_id = i;
                     } else if (CPU_EQUAL_S(mu_cpuset_alloc_size, core_cpuset->set, &core_mask)) {
                         /* Core mask already saved */
@@ -396,14 +419,11 @@ static void parse_system_files(void) {
                 }
 
                 fatal_cond(core_id == -1, "Could not obtain core id for CPU %d", cpu_id);
-
-                /* Add core mask reference to array indexed by CPU id */
-                sys.core_masks_by_cpuid[cpu_id] = &sys.core_masks_by_coreid[core_id];
             }
         }
         closedir(dir);
     }
-    sys.num_cores = num_cores;
+    compact_core_masks(sys.num_cpus);
 
     /*** NUMA Nodes ***/
     int num_nodes = 0;
@@ -428,17 +448,22 @@ static void parse_system_files(void) {
 
                 /* Save node mask */
                 if (CPU_COUNT(&node_mask) > 0) {
-                    num_nodes = max_int(num_nodes, node_id + 1);
-                    mu_cpuset_t *p = realloc(sys.node_masks, num_nodes*sizeof(mu_cpuset_t));
-                    fatal_cond(!p, "realloc failed");
-                    sys.node_masks = p;
+                    if (node_id >= num_nodes) {
+                        mu_cpuset_t *p = realloc(sys.node_masks,
+                                (node_id+1)*sizeof(mu_cpuset_t));
+                        fatal_cond(!p, "realloc failed");
+                        memset(&p[num_nodes], 0, (node_id+1-num_nodes)*sizeof(mu_cpuset_t));
+                        sys.node_masks = p;
+                        num_nodes = node_id + 1;
+                    }
                     mu_cpuset_from_glibc_sched_affinity(&sys.node_masks[node_id], &node_mask);
                 }
             }
         }
         closedir(dir);
     }
-    sys.num_nodes = num_nodes;
+    /* Nodes with no CPUs are ignored */
+    sys.num_nodes = compact_cpusets(sys.node_masks, num_nodes);
 
     /* Fallback if some info could not be parsed */
     if (sys.sys_mask.count == 0) {
-- 
2.43.0


From d841b07ef00857b42ce321f15dfe02b0cd12ecbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:04 +0000
Subject: [PATCH 071/112] fix: CPUs were given to the pending requests of a
 process that died

---
 src/LB_comm/shmem_cpuinfo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 218fe59..a58218d 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -324,6 +324,11 @@ static void cleanup_shmem(void *shdata_ptr, int pid) {
         cpuinfo_t *cpuinfo = &shared_data->node_info[cpuid];
         deregister_cpu(cpuinfo, pid);
     }
+
+    // Remove any previous global request
+    if (shared_data->flags.queues_enabled) {
+        queue_lewi_mask_request_t_remove(&shared_data->lewi_mask_requests, pid);
+    }
 }
 
 static void open_shmem(const char *shmem_key, int shmem_color) {
-- 
2.43.0


From 79ddbd9433e7777e35f87358dc6dd403a13c2144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:04 +0000
Subject: [PATCH 072/112] fix: the CPUs and requests of a process that died
 were not cleaned up in LeWI async

---
 src/LB_comm/shmem_lewi_async.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_lewi_async.c b/src/LB_comm/shmem_lewi_async.c
index d543a16..d6e8eb6 100644
--- a/src/LB_comm/shmem_lewi_async.c
+++ b/src/LB_comm/shmem_lewi_async.c
@@ -69,9 +69,24 @@ static int reclaim_from_shmem(lewi_process_t *process, unsigned int ncpus,
 
 static void cleanup_shmem(void *shdata_ptr, int pid) {
     lewi_async_shdata_t *shared_data = shdata_ptr;
-    if (shared_data->attached_nprocs > 0) {
-        --shared_data->attached_nprocs;
+
+    /* Clear requests */
+    queue_lewi_reqs_remove(&shared_data->requests, pid);
+
+    /* Remove process data, and compute again how many CPUs are idle without it */
+    unsigned int initial_ncpus = 0;
+    unsigned int current_ncpus = 0;
+    for (unsigned int p = 0; p < shared_data->proc_list_head; ++p) {
+        lewi_process_t *process = &shared_data->processes[p];
+        if (process->pid == pid) {
+            *process = (const lewi_process_t) {};
+            --shared_data->attached_nprocs;
+        }
+        initial_ncpus += process->initial_ncpus;
+        current_ncpus += process->current_ncpus;
     }
+    shared_data->idle_cpus = initial_ncpus > current_ncpus
+        ? initial_ncpus - current_ncpus : 0;
 }
 
 static bool is_shmem_empty(void) {
-- 
2.43.0


From 4e205d8904ea94a50a9ba4becba1dc521e1b0319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:44 +0000
Subject: [PATCH 073/112] fix: two threads calling DLB_Init at the same time
 could both initialize DLB

---
 src/LB_core/DLB_kernel.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 9ab6859..fdb01e1 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -46,6 +46,7 @@
 
 #include <limits.h>
 #include <sched.h>
+#include <stddef.h>
 #include <string.h>
 
 
@@ -65,11 +66,10 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
     thread_is_observer = false;
 
     // Initialize common modules (spd->id and instrumentation module ASAP)
-    *spd = (const subprocess_descriptor_t) {
-        .id = id,
-        .dlb_initialized = spd->dlb_initialized,
-        .dlb_preinitialized = spd->dlb_preinitialized,
-    };
+    // The dlb_*initialized flags must not be written, other threads may be checking them
+    spd->id = id;
+    memset(&spd->lewi_enabled, 0,
+            sizeof(*spd) - offsetof(subprocess_descriptor_t, lewi_enabled));
     options_init(&spd->options, lb_args);
     debug_init(&spd->options);
     init_tracing(&spd->options);
-- 
2.43.0


From 882ee533473649fcf2881074b2b44686e3c809f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:44 +0000
Subject: [PATCH 074/112] fix: a fatal error while cleaning up after another
 one blocked the process forever

---
 src/support/debug.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/support/debug.c b/src/support/debug.c
index 86b4b82..cd24555 100644
--- a/src/support/debug.c
+++ b/src/support/debug.c
@@ -309,6 +309,11 @@ static void clean_shmems(pid_t id, const char *shmem_key, int lewi_color) {
 }
 
 void dlb_clean(void) {
+    /* Any other fatal error while cleaning up must not start again */
+    static __thread bool cleaning = false;
+    if (cleaning) return;
+    cleaning = true;
+
     pthread_mutex_lock(&dlb_clean_mutex);
     {
         /* First, try to finalize shmems of registered subprocess */
@@ -344,6 +349,8 @@ void dlb_clean(void) {
         }
     }
     pthread_mutex_unlock(&dlb_clean_mutex);
+
+    cleaning = false;
 }
 
 /* Trigger warning on some errors, tipically common or complex errors during init */
-- 
2.43.0


From 4d92dd9c9c0d95f61a404e91361857b11724a3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:05 +0000
Subject: [PATCH 075/112] fix: a process hanged forever if the creator of a
 shared memory died while initializing it

---
 src/LB_comm/shmem.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/LB_comm/shmem.c b/src/LB_comm/shmem.c
index c870d41..7126c5c 100644
--- a/src/LB_comm/shmem.c
+++ b/src/LB_comm/shmem.c
@@ -200,7 +200,16 @@ shmem_handler_t* shmem_init(void **shdata, const shmem_props_t *shmem_props) {
         handler->shsync->initialized = 1;
     } else {
         /* Shared Memory already created */
-        while(!handler->shsync->initialized) __sync_synchronize();
+        int64_t start = get_time_in_ns();
+        while(!handler->shsync->initialized) {
+            __sync_synchronize();
+            fatal_cond(get_time_in_ns() - start > SHMEM_TIMEOUT_SECONDS * 1000000000LL,
+                    "DLB shared memory has not been initialized by its creator.\n"
+                    "This may have been caused by a previous process crashing"
+                    " while creating the DLB shared memory.\n"
+                    "Please, run 'dlb_shm --delete' and try again.\n"
+                    "Contact us at " PACKAGE_BUGREPORT " if the issue persists.");
+        }
         verbose(VB_SHMEM, "Attached to Shared Memory (%s)", shmem_module);
     }
 
-- 
2.43.0


From 09077d00f694161fc878041074d22bf4eb5b0c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:41 +0000
Subject: [PATCH 076/112] fix: leaving a blocking call in asynchronous mode
 called the enable callbacks of the CPUs of the thread

---
 src/LB_policies/lewi_mask.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 5db9ce5..fc0b5bf 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -478,7 +478,8 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
              * Only if asynchronous mode, keep DISABLE tasks, otherwise remove all. */
             if (error == DLB_NOTED
                     && spd->options.mode == MODE_ASYNC) {
-                for (size_t i = 0, i_write = 0; i < tasks->count; ++i) {
+                size_t i_write = 0;
+                for (size_t i = 0; i < tasks->count; ++i) {
                     const cpuinfo_task_t *task = &tasks->items[i];
                     if (task->action == DISABLE_CPU) {
                         if (i != i_write) {
@@ -487,6 +488,7 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
                         ++i_write;
                     }
                 }
+                tasks->count = i_write;
                 /* Async: resolve only DISABLE tasks */
                 resolve_cpuinfo_tasks(spd, tasks);
             } else {
-- 
2.43.0


From e5cd9ba8250481b5d4c04e12c6f85a308805fffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:22 +0000
Subject: [PATCH 077/112] fix: a process kept using, or lost track of, the
 borrowed CPUs of a thread after a blocking call

When a thread bound to several CPUs leaves a blocking call, those that the
process does not own were only considered if all of them were borrowed, and
if only some could be borrowed again all of them were considered lost. In the
other cases the process kept using CPUs that it did not hold anymore.
---
 src/LB_policies/lewi_mask.c | 44 +++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index fc0b5bf..e413b59 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -497,32 +497,28 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
             }
         }
 
-        /* If there are ONLY non-owned CPUs to reclaim:
-         * (if some owned CPU was already reclaimed, we forget about non-owned) */
-        cpu_set_t non_owned_cpus;
-        mu_substract(&non_owned_cpus, &cpu_set, &spd->process_mask);
-        if (mu_count(&non_owned_cpus) > 0
-                && mu_count(&owned_cpus) == 0) {
-
-            /* Construct a CPU array from non_owned_cpus */
-            array_cpuid_t *cpu_subset = get_cpu_subset(spd);
-            cpu_array_from_cpuset(cpu_subset, &non_owned_cpus);
-
-            /* Borrow CPUs, but also ignoring the enable callbacks */
-            array_cpuinfo_task_t *tasks = get_tasks(spd);
-            error = shmem_cpuinfo__borrow_from_cpu_subset(spd->id, cpu_subset, tasks);
+        /* Non-owned CPUs are kept only if they are still available */
+        cpu_set_t lost_cpus;
+        mu_substract(&lost_cpus, &cpu_set, &spd->process_mask);
+        for (int cpuid = mu_get_first_cpu(&lost_cpus); cpuid >= 0;
+                cpuid = mu_get_next_cpu(&lost_cpus, cpuid)) {
+            /* Borrow CPU, but also ignoring the enable callbacks */
+            if (shmem_cpuinfo__check_cpu_availability(spd->id, cpuid) == DLB_SUCCESS) {
+                CPU_CLR(cpuid, &lost_cpus);
+                error = DLB_SUCCESS;
+            }
+        }
 
-            if (error != DLB_SUCCESS) {
-                /* Annotate the CPU as pending to bypass the shared memory for the next query */
+        if (mu_count(&lost_cpus) > 0) {
+            /* We lost the CPUs while in MPI.
+             * In async mode, we can just disable the CPUs.
+             * In polling mode, the process needs to call Return */
+            if (spd->options.mode == MODE_ASYNC) {
+                disable_cpu_set(&spd->pm, &lost_cpus);
+            } else {
+                /* Annotate the CPUs as pending to bypass the shared memory for the next query */
                 mu_or(&lewi_info->pending_reclaimed_cpus, &lewi_info->pending_reclaimed_cpus,
-                        &non_owned_cpus);
-
-                /* We lost the CPU while in MPI.
-                    * In async mode, we can just disable the CPU.
-                    * In polling mode, the process needs to call Return */
-                if (spd->options.mode == MODE_ASYNC) {
-                    disable_cpu_set(&spd->pm, &non_owned_cpus);
-                }
+                        &lost_cpus);
             }
         }
     }
-- 
2.43.0


From 578ec8c045dd57dc9d709f3129e78eb429e84566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:22 +0000
Subject: [PATCH 078/112] fix: a CPU without owner left by its guest was
 counted as free

Reclaiming the CPUs of a mask that contained such a CPU failed with
DLB_ERR_PERM.
---
 src/LB_comm/shmem_cpuinfo.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index a58218d..fe1f97b 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -302,7 +302,9 @@ static void deregister_cpu(cpuinfo_t *cpuinfo, int pid) {
         // Free external CPUs that I may be using
         if (cpuinfo->guest == pid) {
             cpuinfo->guest = NOBODY;
-            CPU_SET(cpuid, &shdata->free_cpus);
+            if (cpuinfo->state != CPU_DISABLED) {
+                CPU_SET(cpuid, &shdata->free_cpus);
+            }
         }
 
         // Remove any previous CPU request
@@ -663,7 +665,8 @@ static void lend_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks)
     }
 
     // Add CPU to the appropriate CPU sets
-    if (cpuinfo->guest == NOBODY) {
+    if (cpuinfo->guest == NOBODY
+            && cpuinfo->state != CPU_DISABLED) {
         CPU_SET(cpuid, &shdata->free_cpus);
     }
 
@@ -1665,7 +1668,9 @@ static int return_cpu(pid_t pid, int cpuid, array_cpuinfo_task_t *restrict tasks
     } else {
         /* state is disabled or the core is not eligible */
         cpuinfo->guest = NOBODY;
-        CPU_SET(cpuid, &shdata->free_cpus);
+        if (cpuinfo->state != CPU_DISABLED) {
+            CPU_SET(cpuid, &shdata->free_cpus);
+        }
     }
 
     // Possibly clear CPU from occupies cores set
@@ -1764,7 +1769,9 @@ static inline void shmem_cpuinfo__return_async(pid_t pid, cpuid_t cpuid) {
         cpuinfo->guest = cpuinfo->owner;
     } else {
         cpuinfo->guest = NOBODY;
-        CPU_SET(cpuid, &shdata->free_cpus);
+        if (cpuinfo->state != CPU_DISABLED) {
+            CPU_SET(cpuid, &shdata->free_cpus);
+        }
     }
 
     // Possibly clear CPU from occupies cores set
-- 
2.43.0


From faf6bf8009065a26a6ab806076430621aa352242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:22 +0000
Subject: [PATCH 079/112] fix: a CPU lost during a blocking call and obtained
 again was given up by the next Return

The process was told to leave it although it held it, so nobody used it.
Also, DLB_Disable did not tell the process to leave the CPUs that it lost
during a blocking call.
---
 src/LB_policies/lewi_mask.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index e413b59..4709898 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -227,6 +227,8 @@ static void resolve_cpuinfo_tasks(const subprocess_descriptor_t *restrict spd,
             const cpuinfo_task_t *task = &tasks->items[i];
             if (task->pid == spd->id) {
                 if (task->action == ENABLE_CPU) {
+                    CPU_CLR(task->cpuid,
+                            &((lewi_info_t*)spd->lewi_info)->pending_reclaimed_cpus);
                     enable_cpu(&spd->pm, task->cpuid);
                 }
                 else if (task->action == DISABLE_CPU) {
@@ -260,6 +262,9 @@ static void resolve_cpuinfo_tasks(const subprocess_descriptor_t *restrict spd,
             const cpuinfo_task_t *task = &tasks->items[i];
             if (task->pid == spd->id) {
                 if (CPU_COUNT(&cpus_to_enable) > 0) {
+                    lewi_info_t *lewi_info = spd->lewi_info;
+                    mu_substract(&lewi_info->pending_reclaimed_cpus,
+                            &lewi_info->pending_reclaimed_cpus, &cpus_to_enable);
                     enable_cpu_set(&spd->pm, &cpus_to_enable);
                 }
                 if (CPU_COUNT(&cpus_to_disable) > 0) {
@@ -372,6 +377,13 @@ int lewi_mask_DisableDLB(const subprocess_descriptor_t *spd) {
     if (error == DLB_SUCCESS) {
         resolve_cpuinfo_tasks(spd, tasks);
     }
+
+    /* The CPUs lost during a blocking call must be given up too */
+    lewi_info_t *lewi_info = spd->lewi_info;
+    if (CPU_COUNT(&lewi_info->pending_reclaimed_cpus) > 0) {
+        disable_cpu_set(&spd->pm, &lewi_info->pending_reclaimed_cpus);
+        CPU_ZERO(&lewi_info->pending_reclaimed_cpus);
+    }
     return error;
 }
 
@@ -803,7 +815,11 @@ int lewi_mask_ReturnCpuMask(const subprocess_descriptor_t *spd, const cpu_set_t
 // Others
 
 int lewi_mask_CheckCpuAvailability(const subprocess_descriptor_t *spd, int cpuid) {
-    return shmem_cpuinfo__check_cpu_availability(spd->id, cpuid);
+    int error = shmem_cpuinfo__check_cpu_availability(spd->id, cpuid);
+    if (error == DLB_SUCCESS) {
+        CPU_CLR(cpuid, &((lewi_info_t*)spd->lewi_info)->pending_reclaimed_cpus);
+    }
+    return error;
 }
 
 int lewi_mask_UpdateOwnership(const subprocess_descriptor_t *spd,
-- 
2.43.0


From 6fe82990b16857f553325e673a9073e1fc3f8302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:08 +0000
Subject: [PATCH 080/112] fix: finalizing LeWI crashed if a thread that had
 used it was gone

The temporary arrays of each thread were freed by DLB_Finalize through
pointers to the thread-local storage of threads that may not exist anymore.
Now each thread frees its own arrays when it finishes.
---
 src/LB_policies/lewi_mask.c | 82 +++++++++++++++----------------------
 1 file changed, 32 insertions(+), 50 deletions(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 4709898..207d380 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -24,7 +24,6 @@
 #include "LB_comm/shmem_async.h"
 #include "apis/dlb_errors.h"
 #include "support/debug.h"
-#include "support/gslist.h"
 #include "support/mask_utils.h"
 #include "support/small_array.h"
 #include "support/types.h"
@@ -55,9 +54,6 @@ typedef struct LeWI_mask_info {
     array_cpuid_t cpus_priority_array;
     cpu_set_t pending_reclaimed_cpus;       /* CPUs that become reclaimed after an MPI */
     cpu_set_t in_mpi_cpus;                  /* CPUs inside an MPI call */
-    GSList *cpuid_arrays;                   /* thread-private pointers to free at finalize */
-    GSList *cpuinfo_task_arrays;            /* thread-private pointers to free at finalize */
-    pthread_mutex_t mutex;                  /* Mutex to protect lewi_info */
 } lewi_info_t;
 
 
@@ -148,49 +144,55 @@ static void lewi_mask_UpdateOwnershipInfo(const subprocess_descriptor_t *spd,
 /* Array of eligible CPUs. Usually a subset of the CPUs priority array. */
 static __thread array_cpuid_t _cpu_subset = {};
 
+/* Array of cpuinfo tasks. For enabling or disabling CPUs. */
+static __thread array_cpuinfo_task_t _tasks = {};
+
+/* The arrays of a thread are deallocated when it finishes, or when it finalizes LeWI */
+static pthread_key_t thread_arrays_key;
+static pthread_once_t thread_arrays_once = PTHREAD_ONCE_INIT;
+
+static void thread_arrays_destroy(void *arg) {
+    array_cpuid_t_destroy(&_cpu_subset);
+    array_cpuinfo_task_t_destroy(&_tasks);
+}
+
+static void thread_arrays_create_key(void) {
+    pthread_key_create(&thread_arrays_key, thread_arrays_destroy);
+}
+
+static void thread_arrays_register(void) {
+    pthread_once(&thread_arrays_once, thread_arrays_create_key);
+    pthread_setspecific(thread_arrays_key, &_tasks);
+}
+
 static inline array_cpuid_t* get_cpu_subset(const subprocess_descriptor_t *spd) {
     /* Thread already has an allocated array, return it */
-    if (likely(_cpu_subset.items != NULL)) {
+    if (likely(_cpu_subset.items != NULL
+                && _cpu_subset.capacity >= (size_t)node_size)) {
         array_cpuid_t_clear(&_cpu_subset);
         return &_cpu_subset;
     }
 
     /* Otherwise, allocate */
+    array_cpuid_t_destroy(&_cpu_subset);
     array_cpuid_t_init(&_cpu_subset, node_size);
-
-    /* Add pointer to lewi_info to deallocate later */
-    lewi_info_t *lewi_info = spd->lewi_info;
-    pthread_mutex_lock(&lewi_info->mutex);
-    {
-        lewi_info->cpuid_arrays =
-            g_slist_prepend(lewi_info->cpuid_arrays, &_cpu_subset);
-    }
-    pthread_mutex_unlock(&lewi_info->mutex);
+    thread_arrays_register();
 
     return &_cpu_subset;
 }
 
-/* Array of cpuinfo tasks. For enabling or disabling CPUs. */
-static __thread array_cpuinfo_task_t _tasks = {};
-
 static inline array_cpuinfo_task_t* get_tasks(const subprocess_descriptor_t *spd) {
     /* Thread already has an allocated array, return it */
-    if (likely(_tasks.items != NULL)) {
+    if (likely(_tasks.items != NULL
+                && _tasks.capacity >= (size_t)node_size*2)) {
         array_cpuinfo_task_t_clear(&_tasks);
         return &_tasks;
     }
 
     /* Otherwise, allocate */
+    array_cpuinfo_task_t_destroy(&_tasks);
     array_cpuinfo_task_t_init(&_tasks, node_size*2);
-
-    /* Add pointer to lewi_info to deallocate later */
-    lewi_info_t *lewi_info = spd->lewi_info;
-    pthread_mutex_lock(&lewi_info->mutex);
-    {
-        lewi_info->cpuinfo_task_arrays =
-            g_slist_prepend(lewi_info->cpuinfo_task_arrays, &_tasks);
-    }
-    pthread_mutex_unlock(&lewi_info->mutex);
+    thread_arrays_register();
 
     return &_tasks;
 }
@@ -300,7 +302,6 @@ int lewi_mask_Init(subprocess_descriptor_t *spd) {
     lewi_info_t *lewi_info = spd->lewi_info;
     *lewi_info = (const lewi_info_t) {
         .max_parallelism = spd->options.lewi_max_parallelism,
-        .mutex = PTHREAD_MUTEX_INITIALIZER,
     };
     array_cpuid_t_init(&lewi_info->cpus_priority_array, node_size);
     lewi_mask_UpdateOwnershipInfo(spd, &spd->process_mask);
@@ -329,30 +330,11 @@ int lewi_mask_Finalize(subprocess_descriptor_t *spd) {
         resolve_cpuinfo_tasks(spd, tasks);
     }
 
-    /* Deallocate thread private arrays */
-    lewi_info_t *lewi_info = spd->lewi_info;
-    pthread_mutex_lock(&lewi_info->mutex);
-    {
-        for (GSList *node = lewi_info->cpuid_arrays;
-                node != NULL;
-                node = node->next) {
-            array_cpuid_t *array = node->data;
-            array_cpuid_t_destroy(array);
-        }
-        g_slist_free(lewi_info->cpuid_arrays);
-
-        for (GSList *node = lewi_info->cpuinfo_task_arrays;
-                node != NULL;
-                node = node->next) {
-            array_cpuid_t *array = node->data;
-            array_cpuid_t_destroy(array);
-        }
-        g_slist_free(lewi_info->cpuinfo_task_arrays);
-    }
-    pthread_mutex_unlock(&lewi_info->mutex);
-
+    /* Deallocate the arrays of this thread */
+    thread_arrays_destroy(NULL);
 
     /* Deallocate private structure */
+    lewi_info_t *lewi_info = spd->lewi_info;
     array_cpuid_t_destroy(&lewi_info->cpus_priority_array);
     free(lewi_info);
     lewi_info = NULL;
-- 
2.43.0


From aadda4cb936e3b3ea75dc22c93859e2955321c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:11 +0000
Subject: [PATCH 081/112] fix: a process took idle CPUs that it did not use
 when leaving a blocking call

A thread may be bound to more CPUs than those that the process uses. When it
leaves a blocking call, only the borrowed CPUs that were lent when it entered
are kept or considered lost.
---
 src/LB_comm/shmem_cpuinfo.c |  4 ++++
 src/LB_comm/shmem_cpuinfo.h |  1 +
 src/LB_policies/lewi_mask.c | 20 ++++++++++++++++++--
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index fe1f97b..617a82a 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2183,6 +2183,10 @@ int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
     return error;
 }
 
+bool shmem_cpuinfo__is_guest(pid_t pid, int cpuid) {
+    return cpuid >= 0 && cpuid < node_size && shdata->node_info[cpuid].guest == pid;
+}
+
 bool shmem_cpuinfo__exists(void) {
     return shm_handler != NULL;
 }
diff --git a/src/LB_comm/shmem_cpuinfo.h b/src/LB_comm/shmem_cpuinfo.h
index f82598e..619f22c 100644
--- a/src/LB_comm/shmem_cpuinfo.h
+++ b/src/LB_comm/shmem_cpuinfo.h
@@ -107,6 +107,7 @@ int shmem_cpuinfo__get_thread_binding(pid_t pid, int thread_num);
 int shmem_cpuinfo__get_nth_non_owned_cpu(pid_t pid, int nth_cpu);
 int shmem_cpuinfo__get_number_of_non_owned_cpus(pid_t pid);
 int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpu);
+bool shmem_cpuinfo__is_guest(pid_t pid, int cpuid);
 bool shmem_cpuinfo__exists(void);
 void shmem_cpuinfo__enable_request_queues(void);
 void shmem_cpuinfo__remove_requests(pid_t pid);
diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 207d380..00bf929 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -409,6 +409,9 @@ static inline void get_mask_for_blocking_call(
     }
 }
 
+/* Borrowed CPUs that the thread lent on the blocking call */
+static __thread cpu_set_t _borrowed_cpus_in_blocking_call = {};
+
 /* Lend the CPUs of the thread encountering the blocking call */
 int lewi_mask_IntoBlockingCall(const subprocess_descriptor_t *spd) {
     int error = DLB_NOUPDT;
@@ -428,6 +431,18 @@ int lewi_mask_IntoBlockingCall(const subprocess_descriptor_t *spd) {
 #endif
         verbose(VB_MICROLB, "In blocking call, lending %s", mu_to_str(&cpu_set));
 
+        /* Annotate the borrowed CPUs, the thread may be bound to other CPUs too */
+        mu_and(&_borrowed_cpus_in_blocking_call, &cpu_set,
+                &((lewi_info_t*)spd->lewi_info)->pending_reclaimed_cpus);
+        for (int cpuid = mu_get_first_cpu(&cpu_set); cpuid >= 0;
+                cpuid = mu_get_next_cpu(&cpu_set, cpuid)) {
+            if (shmem_cpuinfo__is_guest(spd->id, cpuid)) {
+                CPU_SET(cpuid, &_borrowed_cpus_in_blocking_call);
+            }
+        }
+        mu_substract(&_borrowed_cpus_in_blocking_call,
+                &_borrowed_cpus_in_blocking_call, &spd->process_mask);
+
         /* Finally, lend mask */
         error = lewi_mask_LendCpuMask(spd, &cpu_set);
     }
@@ -491,9 +506,10 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
             }
         }
 
-        /* Non-owned CPUs are kept only if they are still available */
+        /* Borrowed CPUs are kept only if they are still available */
         cpu_set_t lost_cpus;
-        mu_substract(&lost_cpus, &cpu_set, &spd->process_mask);
+        mu_substract(&lost_cpus, &_borrowed_cpus_in_blocking_call, &spd->process_mask);
+        CPU_ZERO(&_borrowed_cpus_in_blocking_call);
         for (int cpuid = mu_get_first_cpu(&lost_cpus); cpuid >= 0;
                 cpuid = mu_get_next_cpu(&lost_cpus, cpuid)) {
             /* Borrow CPU, but also ignoring the enable callbacks */
-- 
2.43.0


From 5d04058158757b239f73f339580dbcde4c0429c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:09 +0000
Subject: [PATCH 082/112] fix: CPUs obtained when leaving a blocking call were
 not always enabled

When acquiring whole cores, the CPUs obtained outside of the affinity of the
thread were assigned to the process but never notified to it.
---
 src/LB_policies/lewi_mask.c | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/LB_policies/lewi_mask.c b/src/LB_policies/lewi_mask.c
index 00bf929..e71be5b 100644
--- a/src/LB_policies/lewi_mask.c
+++ b/src/LB_policies/lewi_mask.c
@@ -482,28 +482,23 @@ int lewi_mask_OutOfBlockingCall(const subprocess_descriptor_t *spd) {
             array_cpuinfo_task_t *tasks = get_tasks(spd);
             error = shmem_cpuinfo__acquire_from_cpu_subset(spd->id, cpu_subset, tasks);
 
-            /* Once CPUs are acquired from the shmem, we don't need to call
-             * any ENABLE callback because they weren't disabled in IntoBlockingCall.
-             * Only if asynchronous mode, keep DISABLE tasks, otherwise remove all. */
-            if (error == DLB_NOTED
-                    && spd->options.mode == MODE_ASYNC) {
-                size_t i_write = 0;
-                for (size_t i = 0; i < tasks->count; ++i) {
-                    const cpuinfo_task_t *task = &tasks->items[i];
-                    if (task->action == DISABLE_CPU) {
-                        if (i != i_write) {
-                            tasks->items[i_write] = tasks->items[i];
-                        }
-                        ++i_write;
+            /* Once CPUs are acquired from the shmem, we don't need to call the
+             * ENABLE callbacks of the CPUs that weren't disabled in IntoBlockingCall.
+             * Other tasks are kept: DISABLE tasks, and ENABLE tasks of the rest of
+             * the core if acquiring whole cores. */
+            size_t i_write = 0;
+            for (size_t i = 0; i < tasks->count; ++i) {
+                const cpuinfo_task_t *task = &tasks->items[i];
+                if (task->action == DISABLE_CPU
+                        || !CPU_ISSET(task->cpuid, &cpu_set)) {
+                    if (i != i_write) {
+                        tasks->items[i_write] = tasks->items[i];
                     }
+                    ++i_write;
                 }
-                tasks->count = i_write;
-                /* Async: resolve only DISABLE tasks */
-                resolve_cpuinfo_tasks(spd, tasks);
-            } else {
-                /* Polling: clear tasks */
-                array_cpuinfo_task_t_clear(tasks);
             }
+            tasks->count = i_write;
+            resolve_cpuinfo_tasks(spd, tasks);
         }
 
         /* Borrowed CPUs are kept only if they are still available */
-- 
2.43.0


From 95542db183f6b1d0c97f2b206d422ea0a9f33dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:21 +0000
Subject: [PATCH 083/112] fix: OpenMP threads were only bound if running on
 other CPU

A thread with a wider affinity, or running by chance on its CPU, was not bound
and could move to the CPU of another thread or to one that had been lent. Also,
there could be no CPU to bind to.
---
 src/LB_numThreads/omptm_omp5.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/LB_numThreads/omptm_omp5.c b/src/LB_numThreads/omptm_omp5.c
index 3febdb4..3a27707 100644
--- a/src/LB_numThreads/omptm_omp5.c
+++ b/src/LB_numThreads/omptm_omp5.c
@@ -382,16 +382,18 @@ void omptm_omp5__parallel_end(omptool_parallel_data_t *parallel_data) {
 }
 
 static inline int get_thread_binding(int index) {
-    return cpu_bindings.items[index % cpu_bindings.count];
+    return cpu_bindings.count > 0 ? cpu_bindings.items[index % cpu_bindings.count] : -1;
 }
 
 void omptm_omp5__into_parallel_function(
         omptool_parallel_data_t *parallel_data, unsigned int index) {
     if (parallel_data->level == 1) {
         int cpuid = get_thread_binding(index);
-        int current_cpuid = sched_getcpu();
-        if (cpuid >=0 && cpuid != current_cpuid) {
-            cpu_set_t thread_mask;
+        cpu_set_t thread_mask;
+        pthread_getaffinity_np(pthread_self(), sizeof(cpu_set_t), &thread_mask);
+        bool bound_to_cpuid = CPU_COUNT(&thread_mask) == 1
+            && cpuid >= 0 && CPU_ISSET(cpuid, &thread_mask);
+        if (cpuid >=0 && !bound_to_cpuid) {
             CPU_ZERO(&thread_mask);
             CPU_SET(cpuid, &thread_mask);
             pthread_setaffinity_np(pthread_self(), sizeof(cpu_set_t), &thread_mask);
-- 
2.43.0


From 63fad25cbbd5b1dc6e83bb8c45b309e18c98fc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:21 +0000
Subject: [PATCH 084/112] fix: the OpenMP thread manager lent CPUs but kept
 them as its own

DLB_SetMaxParallelism lends CPUs chosen by priority, that could include the only
one that the process continued to use, and limits the CPUs obtained from then on.
---
 src/LB_numThreads/omptm_omp5.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/LB_numThreads/omptm_omp5.c b/src/LB_numThreads/omptm_omp5.c
index 3a27707..853505b 100644
--- a/src/LB_numThreads/omptm_omp5.c
+++ b/src/LB_numThreads/omptm_omp5.c
@@ -101,12 +101,12 @@ static void compute_cpu_bindings(void) {
 
 static void set_num_threads_from_active_mask(void) {
     if (num_omp_threads_per_core == hwthreads_per_core) {
-        set_num_threads_fn(CPU_COUNT(&active_mask));
+        set_num_threads_fn(max_int(1, CPU_COUNT(&active_mask)));
     } else {
         cpu_set_t active_core_set;
         mu_get_cores_subset_of_cpuset(&active_core_set, &active_mask);
         int num_active_cores = CPU_COUNT(&active_core_set) / hwthreads_per_core;
-        set_num_threads_fn(num_active_cores * num_omp_threads_per_core);
+        set_num_threads_fn(max_int(1, num_active_cores * num_omp_threads_per_core));
     }
 }
 
@@ -189,12 +189,22 @@ static void omptm_omp5__borrow(void) {
 
 static void omptm_omp5__lend(void) {
     if (lewi && omptool_opts & OMPTOOL_OPTS_LEND) {
-        set_num_threads_fn(1);
-        CPU_ZERO(&active_mask);
-        CPU_SET(sched_getcpu(), &active_mask);
-        compute_cpu_bindings();
-        verbose(VB_OMPT, "Release - Setting new mask to %s", mu_to_str(&active_mask));
-        DLB_SetMaxParallelism(1);
+        /* Lend every active CPU but one, preferably the current one */
+        int cpuid = sched_getcpu();
+        if (!CPU_ISSET(cpuid, &active_mask)) {
+            cpuid = mu_get_first_cpu(&active_mask);
+        }
+        cpu_set_t mask;
+        memcpy(&mask, &active_mask, sizeof(cpu_set_t));
+        if (cpuid >= 0) {
+            CPU_CLR(cpuid, &mask);
+        }
+        if (DLB_LendCpuMask(&mask) == DLB_SUCCESS) {
+            set_num_threads_fn(1);
+            mu_substract(&active_mask, &active_mask, &mask);
+            compute_cpu_bindings();
+            verbose(VB_OMPT, "Release - Setting new mask to %s", mu_to_str(&active_mask));
+        }
     }
 }
 
-- 
2.43.0


From ea481a077aabcb4b8973124b1f3a939fcb79a18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:30 +0000
Subject: [PATCH 085/112] fix: wrong CPUs and threads in blocking calls with
 the OpenMP thread manager

The CPU lent and reclaimed by DLB are those of the affinity of the thread, not
the current one, and the number of threads was set to 0 if OMP_NUM_THREADS was
not specified.
---
 src/LB_numThreads/omptm_omp5.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/LB_numThreads/omptm_omp5.c b/src/LB_numThreads/omptm_omp5.c
index 853505b..ae93fb7 100644
--- a/src/LB_numThreads/omptm_omp5.c
+++ b/src/LB_numThreads/omptm_omp5.c
@@ -351,17 +351,16 @@ void omptm_omp5__finalize(void) {
  */
 void omptm_omp5__IntoBlockingCall(void) {
     if (lewi) {
-        int mycpu = sched_getcpu();
+        cpu_set_t thread_mask;
+        pthread_getaffinity_np(pthread_self(), sizeof(cpu_set_t), &thread_mask);
 
-        /* Lend every CPU except the current one */
+        /* Lend every CPU except those of the current thread */
         cpu_set_t mask;
-        memcpy(&mask, &active_mask, sizeof(cpu_set_t));
-        CPU_CLR(mycpu, &mask);
+        mu_substract(&mask, &active_mask, &thread_mask);
         DLB_LendCpuMask(&mask);
 
-        /* Set active_mask to only the current CPU */
-        CPU_ZERO(&active_mask);
-        CPU_SET(mycpu, &active_mask);
+        /* Set active_mask to only the CPUs of the current thread */
+        mu_and(&active_mask, &active_mask, &thread_mask);
         set_num_threads_fn(1);
         compute_cpu_bindings();
 
@@ -371,10 +370,21 @@ void omptm_omp5__IntoBlockingCall(void) {
 
 void omptm_omp5__OutOfBlockingCall(void) {
     if (lewi) {
+        /* The owned CPUs of the current thread have already been reclaimed */
+        cpu_set_t thread_mask;
+        pthread_getaffinity_np(pthread_self(), sizeof(cpu_set_t), &thread_mask);
+        mu_and(&thread_mask, &thread_mask, &process_mask);
+        mu_or(&active_mask, &active_mask, &thread_mask);
+        compute_cpu_bindings();
+
         DLB_Reclaim();
 
-        /* Return to the initial number of threads */
-        set_num_threads_fn(num_initial_omp_threads_level1);
+        /* Return to the initial number of threads, if specified */
+        if (num_initial_omp_threads_level1 > 0) {
+            set_num_threads_fn(num_initial_omp_threads_level1);
+        } else {
+            set_num_threads_from_active_mask();
+        }
     }
 }
 
-- 
2.43.0


From 46c811af5fd7bb023bc646cb6791ead604770860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:30 +0000
Subject: [PATCH 086/112] fix: the OpenMP thread manager forgot lent and
 borrowed CPUs on a new process mask

---
 src/LB_comm/shmem_cpuinfo.c    |  3 ++-
 src/LB_numThreads/omptm_omp5.c | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 617a82a..3b6dadc 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2184,7 +2184,8 @@ int shmem_cpuinfo__check_cpu_availability(pid_t pid, int cpuid) {
 }
 
 bool shmem_cpuinfo__is_guest(pid_t pid, int cpuid) {
-    return cpuid >= 0 && cpuid < node_size && shdata->node_info[cpuid].guest == pid;
+    return shdata != NULL && cpuid >= 0 && cpuid < node_size
+        && shdata->node_info[cpuid].guest == pid;
 }
 
 bool shmem_cpuinfo__exists(void) {
diff --git a/src/LB_numThreads/omptm_omp5.c b/src/LB_numThreads/omptm_omp5.c
index ae93fb7..f61ed60 100644
--- a/src/LB_numThreads/omptm_omp5.c
+++ b/src/LB_numThreads/omptm_omp5.c
@@ -135,8 +135,19 @@ static void cb_disable_cpu_set(const cpu_set_t *cpu_set, void *arg) {
 }
 
 static void cb_set_process_mask(const cpu_set_t *mask, void *arg) {
+    if (lewi) {
+        /* Gained CPUs are also enabled by LeWI, and CPUs may have been lent or borrowed:
+         * only the lost CPUs that the process no longer holds are removed */
+        for (int cpuid = mu_get_first_cpu(&process_mask); cpuid >= 0;
+                cpuid = mu_get_next_cpu(&process_mask, cpuid)) {
+            if (!CPU_ISSET(cpuid, mask) && !shmem_cpuinfo__is_guest(pid, cpuid)) {
+                CPU_CLR(cpuid, &active_mask);
+            }
+        }
+    } else {
+        memcpy(&active_mask, mask, sizeof(cpu_set_t));
+    }
     memcpy(&process_mask, mask, sizeof(cpu_set_t));
-    memcpy(&active_mask, mask, sizeof(cpu_set_t));
 
     /* Update number of cores in process mask */
     cpu_set_t core_set;
-- 
2.43.0


From 94a956b9c7b85a47ff721555993207d2e73b56a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:30 +0000
Subject: [PATCH 087/112] fix: buffer overflow in the OpenMP thread manager
 with more than 8 CPUs

---
 src/LB_numThreads/omptm_omp5.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_numThreads/omptm_omp5.c b/src/LB_numThreads/omptm_omp5.c
index f61ed60..b0267fa 100644
--- a/src/LB_numThreads/omptm_omp5.c
+++ b/src/LB_numThreads/omptm_omp5.c
@@ -345,7 +345,7 @@ void omptm_omp5__init(pid_t process_id, const options_t *options) {
         verbose(VB_OMPT, "hwthreads per core: %d, omp threads per core: %d",
                 hwthreads_per_core, num_omp_threads_per_core);
 
-        array_cpuid_t_init(&cpu_bindings, 8);
+        array_cpuid_t_init(&cpu_bindings, mu_get_system_size());
         compute_cpu_bindings();
 
         omptm_omp5__lend();
-- 
2.43.0


From 085dd576bbd8f52f5745327db9bf7bc4cb64508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:42 +0000
Subject: [PATCH 088/112] fix: the CSV file of TALP processes had all rows in
 one line and merged two columns

---
 src/support/talp_output.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/support/talp_output.c b/src/support/talp_output.c
index 2ef4173..d787057 100644
--- a/src/support/talp_output.c
+++ b/src/support/talp_output.c
@@ -1105,7 +1105,7 @@ static void process_to_csv(FILE *out_file, bool append) {
                     "%d,"           /* NodeId */
                     "%s,"           /* Hostname */
                     "%s,"           /* CpuSet */
-                    "%d"            /* NumCpus */
+                    "%d,"           /* NumCpus */
                     "%.1f,"         /* AvgCpus */
                     "%"PRId64","    /* Cycles */
                     "%"PRId64","    /* Instructions */
@@ -1119,7 +1119,7 @@ static void process_to_csv(FILE *out_file, bool append) {
                     "%"PRId64","    /* MPITime */
                     "%"PRId64","    /* OMPLoadImbalance */
                     "%"PRId64","    /* OMPSchedulingTime */
-                    "%"PRId64",",   /* OMPSerializationTime */
+                    "%"PRId64"\n",  /* OMPSerializationTime */
                     region_record->name,
                     process_record->rank,
                     process_record->pid,
-- 
2.43.0


From 32318625b40083122878a15c7c535ef9fd0b20d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:42 +0000
Subject: [PATCH 089/112] fix: TALP changed the locale of the thread and leaked
 memory when writing its report

---
 src/support/talp_output.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/support/talp_output.c b/src/support/talp_output.c
index d787057..b789080 100644
--- a/src/support/talp_output.c
+++ b/src/support/talp_output.c
@@ -1442,22 +1442,19 @@ void talp_output_finalize(const char *output_file) {
 
     /* If the process has changed the locale, temporarily push the C locale to
      * print floats with the expected notation (a comma as a decimal separator
-     * will break CSV and JSON files). The object associated with the locale
-     * can be safely freed after it has been set. */
+     * will break CSV and JSON files). */
     locale_t new_locale = newlocale(LC_ALL, "C", 0);
-    uselocale(new_locale);
-    freelocale(new_locale);
+    locale_t previous_locale = uselocale(new_locale);
 
     if (output_file == NULL) {
         /* No output file, just print all records */
         pop_metrics_print();
         node_print();
         process_print();
-    } else {
-        /* Do not open file if process has no data */
-        if (pop_metrics_records == NULL
-                && node_records == NULL
-                && region_records == NULL) return;
+    } else if (pop_metrics_records != NULL
+            || node_records != NULL
+            || region_records != NULL) {
+        /* (Do not open file if process has no data) */
 
         /* Check file extension */
         typedef enum Extension {
@@ -1514,6 +1511,7 @@ void talp_output_finalize(const char *output_file) {
                     pop_metrics_to_csv(pop_file, append_to_csv);
                     fclose(pop_file);
                 }
+                free(pop_filename);
             }
 
             /* Node */
@@ -1537,6 +1535,7 @@ void talp_output_finalize(const char *output_file) {
                     node_to_csv(node_file, append_to_csv);
                     fclose(node_file);
                 }
+                free(node_filename);
             }
 
             /* Process */
@@ -1560,6 +1559,7 @@ void talp_output_finalize(const char *output_file) {
                     process_to_csv(process_file, append_to_csv);
                     fclose(process_file);
                 }
+                free(process_filename);
             }
         }
 
@@ -1620,7 +1620,8 @@ void talp_output_finalize(const char *output_file) {
     }
 
     // Restore locale
-    uselocale(LC_GLOBAL_LOCALE);
+    uselocale(previous_locale);
+    freelocale(new_locale);
 
     // De-allocate all records
     common_finalize();
-- 
2.43.0


From 74f2175099c86e1caad762cd873f75d8e9862109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:24 +0000
Subject: [PATCH 090/112] fix: names with special characters broke the TALP
 report files

---
 src/support/talp_output.c | 74 +++++++++++++++++++++++++++++++++------
 1 file changed, 63 insertions(+), 11 deletions(-)

diff --git a/src/support/talp_output.c b/src/support/talp_output.c
index b789080..5ce7674 100644
--- a/src/support/talp_output.c
+++ b/src/support/talp_output.c
@@ -47,6 +47,52 @@ static float sanitized_ipc(float instructions, float cycles) {
     }
 }
 
+/* Names are given by the user and may contain any character, escape those with
+ * a special meaning in each format */
+enum { ESCAPED_MAX = DLB_MONITOR_NAME_MAX * 6 + 1 };
+typedef struct { char str[ESCAPED_MAX]; } escaped_t;
+
+static const char* json_escape(escaped_t *escaped, const char *str) {
+    char *p = escaped->str;
+    for (const char *c = str; *c != '\0' && p < escaped->str + ESCAPED_MAX - 6; ++c) {
+        if (*c == '"' || *c == '\\') {
+            p += sprintf(p, "\\%c", *c);
+        } else if ((unsigned char)*c < 0x20) {
+            p += sprintf(p, "\\u%04x", *c);
+        } else {
+            *p++ = *c;
+        }
+    }
+    *p = '\0';
+    return escaped->str;
+}
+
+static const char* xml_escape(escaped_t *escaped, const char *str) {
+    char *p = escaped->str;
+    for (const char *c = str; *c != '\0' && p < escaped->str + ESCAPED_MAX - 6; ++c) {
+        switch(*c) {
+            case '<':  p += sprintf(p, "&lt;");   break;
+            case '>':  p += sprintf(p, "&gt;");   break;
+            case '&':  p += sprintf(p, "&amp;");  break;
+            case '"':  p += sprintf(p, "&quot;"); break;
+            default:   *p++ = *c;
+        }
+    }
+    *p = '\0';
+    return escaped->str;
+}
+
+/* To be printed between quotes */
+static const char* csv_escape(escaped_t *escaped, const char *str) {
+    char *p = escaped->str;
+    for (const char *c = str; *c != '\0' && p < escaped->str + ESCAPED_MAX - 6; ++c) {
+        if (*c == '"') *p++ = '"';
+        *p++ = *c;
+    }
+    *p = '\0';
+    return escaped->str;
+}
+
 
 /*********************************************************************************/
 /*    Monitoring Region                                                          */
@@ -174,6 +220,7 @@ static void pop_metrics_to_json(FILE *out_file) {
                 node = node->next) {
 
             dlb_pop_metrics_t *record = node->data;
+            escaped_t name;
 
             fprintf(out_file,
                     "    \"%s\": {\n"
@@ -209,7 +256,7 @@ static void pop_metrics_to_json(FILE *out_file) {
                     "      \"ompSchedulingEfficiency\": %.2f,\n"
                     "      \"ompSerializationEfficiency\": %.2f\n"
                     "    }%s\n",
-                    record->name,
+                    json_escape(&name, record->name),
                     record->num_cpus,
                     record->num_mpi_ranks,
                     record->num_nodes,
@@ -255,6 +302,7 @@ static void pop_metrics_to_xml(FILE *out_file) {
             node = node->next) {
 
         dlb_pop_metrics_t *record = node->data;
+        escaped_t name;
 
         fprintf(out_file,
                 "  <Application>\n"
@@ -291,7 +339,7 @@ static void pop_metrics_to_xml(FILE *out_file) {
                 "    <ompSchedulingEfficiency>%.2f</ompSchedulingEfficiency>\n"
                 "    <ompSerializationEfficiency>%.2f</ompSerializationEfficiency>\n"
                 "  </Application>\n",
-                record->name,
+                xml_escape(&name, record->name),
                 record->num_cpus,
                 record->num_mpi_ranks,
                 record->num_nodes,
@@ -461,6 +509,7 @@ static void pop_metrics_to_csv(FILE *out_file, bool append) {
             node = node->next) {
 
         dlb_pop_metrics_t *record = node->data;
+        escaped_t name;
 
         fprintf(out_file,
                 "\"%s\","    /* name */
@@ -495,7 +544,7 @@ static void pop_metrics_to_csv(FILE *out_file, bool append) {
                 "%.2f,"      /* ompLoadBalance */
                 "%.2f,"      /* ompSchedulingEfficiency */
                 "%.2f\n",    /* ompSerializationEfficiency */
-                record->name,
+                csv_escape(&name, record->name),
                 record->num_cpus,
                 record->num_mpi_ranks,
                 record->num_nodes,
@@ -930,10 +979,11 @@ static void process_to_json(FILE *out_file) {
             node = node->next) {
 
         region_record_t *region_record = node->data;
+        escaped_t name, hostname;
 
         fprintf(out_file,
                 "    \"%s\": [\n",
-                region_record->name);
+                json_escape(&name, region_record->name));
 
         for (int i = 0; i < region_record->num_mpi_ranks; ++i) {
 
@@ -965,7 +1015,7 @@ static void process_to_json(FILE *out_file) {
                 process_record->rank,
                 process_record->pid,
                 process_record->node_id,
-                process_record->hostname,
+                json_escape(&hostname, process_record->hostname),
                 process_record->cpuset_quoted,
                 process_record->monitor.num_cpus,
                 process_record->monitor.avg_cpus,
@@ -999,11 +1049,12 @@ static void process_to_xml(FILE *out_file) {
             node = node->next) {
 
         region_record_t *region_record = node->data;
+        escaped_t name, hostname;
 
         fprintf(out_file,
                 "  <Process>\n"
                 "    <name>%s</name>\n",
-                region_record->name);
+                xml_escape(&name, region_record->name));
 
         for (int i = 0; i < region_record->num_mpi_ranks; ++i) {
 
@@ -1035,7 +1086,7 @@ static void process_to_xml(FILE *out_file) {
                 process_record->rank,
                 process_record->pid,
                 process_record->node_id,
-                process_record->hostname,
+                xml_escape(&hostname, process_record->hostname),
                 process_record->cpuset_quoted,
                 process_record->monitor.num_cpus,
                 process_record->monitor.avg_cpus,
@@ -1093,17 +1144,18 @@ static void process_to_csv(FILE *out_file, bool append) {
             node = node->next) {
 
         region_record_t *region_record = node->data;
+        escaped_t name, hostname;
 
         for (int i = 0; i < region_record->num_mpi_ranks; ++i) {
 
             process_record_t *process_record = &region_record->process_records[i];
 
             fprintf(out_file,
-                    "%s,"           /* Region */
+                    "\"%s\","       /* Region */
                     "%d,"           /* Rank */
                     "%d,"           /* PID */
                     "%d,"           /* NodeId */
-                    "%s,"           /* Hostname */
+                    "\"%s\","       /* Hostname */
                     "%s,"           /* CpuSet */
                     "%d,"           /* NumCpus */
                     "%.1f,"         /* AvgCpus */
@@ -1120,11 +1172,11 @@ static void process_to_csv(FILE *out_file, bool append) {
                     "%"PRId64","    /* OMPLoadImbalance */
                     "%"PRId64","    /* OMPSchedulingTime */
                     "%"PRId64"\n",  /* OMPSerializationTime */
-                    region_record->name,
+                    csv_escape(&name, region_record->name),
                     process_record->rank,
                     process_record->pid,
                     process_record->node_id,
-                    process_record->hostname,
+                    csv_escape(&hostname, process_record->hostname),
                     process_record->cpuset_quoted,
                     process_record->monitor.num_cpus,
                     process_record->monitor.avg_cpus,
-- 
2.43.0


From 6d43ed4147fe29fa96b85fae0ca78bbf70a4ec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:01 +0000
Subject: [PATCH 091/112] fix: the maximum useful time of the nodes was
 truncated in the MPI reduction

---
 src/LB_core/DLB_talp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index f851e11..aad3f65 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1457,8 +1457,9 @@ static void talp_mpi_reduction_fn(void *invec, void *inoutvec, int *len,
         inout[i].omp_load_imbalance_time += in[i].omp_load_imbalance_time;
         inout[i].omp_scheduling_time     += in[i].omp_scheduling_time;
         inout[i].omp_serialization_time  += in[i].omp_serialization_time;
-        inout[i].max_useful_normd_node  =
-            max_int64(inout[i].max_useful_normd_node, in[i].max_useful_normd_node);
+        if (in[i].max_useful_normd_node > inout[i].max_useful_normd_node) {
+            inout[i].max_useful_normd_node = in[i].max_useful_normd_node;
+        }
         if (in[i].max_useful_normd_proc > inout[i].max_useful_normd_proc) {
             inout[i].max_useful_normd_proc = in[i].max_useful_normd_proc;
             inout[i].mpi_normd_of_max_useful = in[i].mpi_normd_of_max_useful;
-- 
2.43.0


From db791f143a8fadfc522ea1bd9d584f6655a76c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:01 +0000
Subject: [PATCH 092/112] fix: TALP counted its own MPI call when reducing the
 POP metrics

---
 src/LB_core/DLB_talp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index aad3f65..3df4bde 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1543,7 +1543,7 @@ static void talp_reduce_pop_metrics_app_reduction(app_reduction_t *app_reduction
 
     /* Define MPI operation */
     MPI_Op app_reduction_op;
-    MPI_Op_create(talp_mpi_reduction_fn, true, &app_reduction_op);
+    PMPI_Op_create(talp_mpi_reduction_fn, true, &app_reduction_op);
 
     /* MPI reduction */
     if (!all_to_all) {
-- 
2.43.0


From 4513abe1b4ac12a564fabcc970c8fe0811381366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:01 +0000
Subject: [PATCH 093/112] fix: TALP node summary with a different number of
 processes in each node

---
 src/LB_core/DLB_talp.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 3df4bde..d617a10 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1138,6 +1138,17 @@ static void talp_record_node_summary(const subprocess_descriptor_t *spd) {
     if (_process_id == 0) {
         verbose(VB_TALP, "Node summary: gathering data");
 
+        /* Nodes may have a different number of processes, but all of them need to
+         * send the same data type: use the size of the largest one */
+        int max_nelems;
+        PMPI_Allreduce(&node_summary->nelems, &max_nelems, 1, MPI_INT, MPI_MAX,
+                getInterNodeComm());
+        node_summary_size = sizeof(node_record_t)
+            + sizeof(process_in_node_record_t) * max_nelems;
+        node_summary = realloc(node_summary, node_summary_size);
+        memset(&node_summary->processes[node_summary->nelems], 0,
+                sizeof(process_in_node_record_t) * (max_nelems - node_summary->nelems));
+
         /* MPI type: pid_t */
         MPI_Datatype mpi_pid_type;
         PMPI_Type_match_size(MPI_TYPECLASS_INTEGER, sizeof(pid_t), &mpi_pid_type);
@@ -1163,7 +1174,7 @@ static void talp_record_node_summary(const subprocess_descriptor_t *spd) {
         MPI_Datatype mpi_node_record_type;;
         {
             int count = 7;
-            int blocklengths[] = {1, 1, 1, 1, 1, 1, node_summary->nelems};
+            int blocklengths[] = {1, 1, 1, 1, 1, 1, max_nelems};
             MPI_Aint displacements[] = {
                 offsetof(node_record_t, node_id),
                 offsetof(node_record_t, nelems),
-- 
2.43.0


From df73c40067e192221ebdcfa436f7bebe43da6ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:50 +0000
Subject: [PATCH 094/112] fix: wrong node id in MPI processes when nodes have
 different sizes

---
 src/LB_MPI/process_MPI.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LB_MPI/process_MPI.c b/src/LB_MPI/process_MPI.c
index 461c59a..9947614 100644
--- a/src/LB_MPI/process_MPI.c
+++ b/src/LB_MPI/process_MPI.c
@@ -97,6 +97,11 @@ static void get_mpi_info(void) {
     PMPI_Comm_split(mpi_comm_world, _process_id, 0 /* key */, &mpi_comm_internode);
     PMPI_Comm_rank(mpi_comm_internode, &_node_id);
     PMPI_Comm_size(mpi_comm_internode, &_num_nodes);
+
+    /* Nodes may have a different number of processes, only the communicator of the
+     * first process of each node contains all of them */
+    PMPI_Bcast(&_node_id, 1, MPI_INT, 0, mpi_comm_node);
+    PMPI_Bcast(&_num_nodes, 1, MPI_INT, 0, mpi_comm_node);
 #else
     char hostname[HOST_NAME_MAX] = {'\0'};
     char (*recvData)[HOST_NAME_MAX] = malloc(_mpi_size * sizeof(char[HOST_NAME_MAX]));
-- 
2.43.0


From 812e816c9e028afedc0bef9eec3d7b046492641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:50 +0000
Subject: [PATCH 095/112] fix: load balance of a node without useful time was
 not a number

---
 src/support/perf_metrics.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/support/perf_metrics.h b/src/support/perf_metrics.h
index 8ae6a8f..4e87200 100644
--- a/src/support/perf_metrics.h
+++ b/src/support/perf_metrics.h
@@ -77,7 +77,8 @@ static inline void perf_metrics__infer_mpi_model(
         *metrics = (const perf_metrics_mpi_t) {
             .parallel_efficiency = (float)node_sum_useful / (node_sum_useful + node_sum_mpi),
             .communication_efficiency = (float)max_useful_time / elapsed_time,
-            .load_balance = ((float)node_sum_useful / processes_per_node) / max_useful_time,
+            .load_balance = max_useful_time == 0 ? 0.0f
+                : ((float)node_sum_useful / processes_per_node) / max_useful_time,
         };
     } else {
         *metrics = (const perf_metrics_mpi_t) {};
-- 
2.43.0


From 07d2ea8b35efbf81051c1e0ae4306e1fd9e53a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:08 +0000
Subject: [PATCH 096/112] fix: TALP node summary without the DLB barrier did
 not wait for the other processes

---
 src/LB_core/DLB_talp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index d617a10..5744e51 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -1088,8 +1088,9 @@ static void talp_record_node_summary(const subprocess_descriptor_t *spd) {
     size_t node_summary_size = 0;
 
     /* Perform a barrier so that all processes in the node have arrived at the
-     * MPI_Finalize */
+     * MPI_Finalize (the DLB barrier may be disabled or detached in some of them) */
     node_barrier(spd, NULL);
+    PMPI_Barrier(getNodeComm());
 
     /* Node process 0 reduces all global regions from all processes in the node */
     if (_process_id == 0) {
@@ -1133,6 +1134,7 @@ static void talp_record_node_summary(const subprocess_descriptor_t *spd) {
     /* Perform a final barrier so that all processes let the _process_id 0 to
      * gather all the data */
     node_barrier(spd, NULL);
+    PMPI_Barrier(getNodeComm());
 
     /* All main processes from each node send data to rank 0 */
     if (_process_id == 0) {
-- 
2.43.0


From 14b432c51b5a1747a4e6832bbc7b03825bda35e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:20 +0000
Subject: [PATCH 097/112] fix: MPI_Reduce_local is a local operation, neither
 blocking nor collective

---
 src/LB_MPI/mpicalls.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LB_MPI/mpicalls.json b/src/LB_MPI/mpicalls.json
index b744623..bc18207 100644
--- a/src/LB_MPI/mpicalls.json
+++ b/src/LB_MPI/mpicalls.json
@@ -461,7 +461,7 @@
             "name": "MPI_Reduce_local",
             "cpar": "MPI3_CONST void *inbuf, void *inoutbuf, int count, MPI_Datatype datatype, MPI_Op op",
             "f08par": "TYPE(*), DIMENSION(..), INTENT(IN) :: inbuf; TYPE(*), DIMENSION(..) :: inoutbuf; INTEGER, INTENT(IN) :: count; TYPE(MPI_Datatype), INTENT(IN) :: datatype; TYPE(MPI_Op), INTENT(IN) :: op; INTEGER, OPTIONAL, INTENT(OUT) :: ierror",
-            "tags": "_Reduce|_Blocking|_Collective",
+            "tags": "_Reduce",
             "since": "MPI-2.2"
         },
         {
-- 
2.43.0


From b6c109f4291692aee089195d954a1c3ce1801e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:20 +0000
Subject: [PATCH 098/112] fix: some blocking MPI calls were not known to be
 blocking

MPI_Probe, MPI_Mprobe, MPI_Mrecv and the blocking neighborhood collectives
were never selected by --lewi-mpi-calls.
---
 src/LB_MPI/mpicalls.json | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/LB_MPI/mpicalls.json b/src/LB_MPI/mpicalls.json
index bc18207..afdb6bd 100644
--- a/src/LB_MPI/mpicalls.json
+++ b/src/LB_MPI/mpicalls.json
@@ -91,21 +91,21 @@
             "name": "MPI_Mprobe",
             "cpar": "int source, int tag, MPI_Comm comm, MPI_Message *message, MPI_Status *status",
             "f08par": "INTEGER, INTENT(IN) :: source, tag; TYPE(MPI_Comm), INTENT(IN) :: comm; TYPE(MPI_Message), INTENT(OUT) :: message; TYPE(MPI_Status) :: status; INTEGER, OPTIONAL, INTENT(OUT) :: ierror",
-            "tags": "",
+            "tags": "_Test|_Blocking",
             "since": "MPI-3.0"
         },
         {
             "name": "MPI_Mrecv",
             "cpar": "void *buf, int count, MPI_Datatype datatype, MPI_Message *message, MPI_Status *status",
             "f08par": "TYPE(*), DIMENSION(..) :: buf; INTEGER, INTENT(IN) :: count; TYPE(MPI_Datatype), INTENT(IN) :: datatype; TYPE(MPI_Message), INTENT(INOUT) :: message; TYPE(MPI_Status) :: status; INTEGER, OPTIONAL, INTENT(OUT) :: ierror",
-            "tags": "",
+            "tags": "_Receive|_Blocking",
             "since": "MPI-3.0"
         },
         {
             "name": "MPI_Probe",
             "cpar": "int source, int tag, MPI_Comm comm, MPI_Status *status",
             "f08par": "INTEGER, INTENT(IN) :: source, tag; TYPE(MPI_Comm), INTENT(IN) :: comm; TYPE(MPI_Status) :: status; INTEGER, OPTIONAL, INTENT(OUT) :: ierror",
-            "tags": "_Test"
+            "tags": "_Test|_Blocking"
         },
         {
             "name": "MPI_Recv",
@@ -972,35 +972,35 @@
             "name": "MPI_Neighbor_allgather",
             "cpar": "const void *sendbuf, int sendcount, MPI_Datatype sendtype, void *recvbuf, int recvcount, MPI_Datatype recvtype, MPI_Comm comm",
             "f08par": "TYPE(*), DIMENSION(..), INTENT(IN) :: sendbuf; TYPE(*), DIMENSION(..) :: recvbuf; INTEGER, INTENT(IN) :: sendcount, recvcount; TYPE(MPI_Datatype), INTENT(IN) :: sendtype, recvtype; TYPE(MPI_Comm), INTENT(IN) :: comm; INTEGER, OPTIONAL, INTENT(OUT) :: ierror",
-            "tags": "",
+            "tags": "_Gather|_Blocking|_Collective",
             "since": "MPI-3.0"
         },
         {
             "name": "MPI_Neighbor_allgatherv",
             "cpar": "const void *sendbuf, int sendcount, MPI_Datatype sendtype, void *recvbuf, const int recvcounts[], const int displs[], MPI_Datatype recvtype, MPI_Comm comm",
             "f08par": "TYPE(*), DIMENSION(..), INTENT(IN) :: sendbuf; TYPE(*), DIMENSION(..) :: recvbuf; INTEGER, INTENT(IN) :: sendcount, recvcounts(*), displs(*); TYPE(MPI_Datatype), INTENT(IN) :: sendtype, recvtype; TYPE(MPI_Comm), INTENT(IN) :: comm; INTEGER, OPTIONAL, INTENT(OUT) :: ierror",
-            "tags": "",
+            "tags": "_Gather|_Blocking|_Collective",
             "since": "MPI-3.0"
         },
         {
             "name": "MPI_Neighbor_alltoall",
             "cpar": "const void *sendbuf, int sendcount, MPI_Datatype sendtype, void *recvbuf, int recvcount, MPI_Datatype recvtype, MPI_Comm comm",
             "f08par": "TYPE(*), DIMENSION(..), INTENT(IN) :: sendbuf; TYPE(*), DIMENSION(..) :: recvbuf; INTEGER, INTENT(IN) :: sendcount, recvcount; TYPE(MPI_Datatype), INTENT(IN) :: sendtype, recvtype; TYPE(MPI_Comm), INTENT(IN) :: comm; INTEGER, OPTIONAL, INTENT(OUT) :: ierror",
-            "tags": "",
+            "tags": "_All2All|_Blocking|_Collective",
             "since": "MPI-3.0"
         },
         {
             "name": "MPI_Neighbor_alltoallv",
             "cpar": "const void *sendbuf, const int sendcounts[], const int sdispls[], MPI_Datatype sendtype, void *recvbuf, const int recvcounts[], const int rdispls[], MPI_Datatype recvtype, MPI_Comm comm",
             "f08par": "TYPE(*), DIMENSION(..), INTENT(IN) :: sendbuf; TYPE(*), DIMENSION(..) :: recvbuf; INTEGER, INTENT(IN) :: sendcounts(*), sdispls(*), recvcounts(*), rdispls(*); TYPE(MPI_Datatype), INTENT(IN) :: sendtype, recvtype; TYPE(MPI_Comm), INTENT(IN) :: comm; INTEGER, OPTIONAL, INTENT(OUT) :: ierror",
-            "tags": "",
+            "tags": "_All2All|_Blocking|_Collective",
             "since": "MPI-3.0"
         },
         {
             "name": "MPI_Neighbor_alltoallw",
             "cpar": "const void *sendbuf, const int sendcounts[], const MPI_Aint sdispls[], const MPI_Datatype sendtypes[], void *recvbuf, const int recvcounts[], const MPI_Aint rdispls[], const MPI_Datatype recvtypes[], MPI_Comm comm",
             "f08par": "TYPE(*), DIMENSION(..), INTENT(IN) :: sendbuf; TYPE(*), DIMENSION(..) :: recvbuf; INTEGER, INTENT(IN) :: sendcounts(*), recvcounts(*); INTEGER(KIND=MPI_ADDRESS_KIND), INTENT(IN) :: sdispls(*), rdispls(*); TYPE(MPI_Datatype), INTENT(IN) :: sendtypes(*), recvtypes(*); TYPE(MPI_Comm), INTENT(IN) :: comm; INTEGER, OPTIONAL, INTENT(OUT) :: ierror",
-            "tags": "",
+            "tags": "_All2All|_Blocking|_Collective",
             "since": "MPI-3.0"
         },
         {
-- 
2.43.0


From e2897a74b3e0b625c4a66752fc0babe231d99804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:21 +0000
Subject: [PATCH 099/112] fix: DLB_Barrier crashed if DLB was finalized or
 DLB_Init had failed

The options are kept after DLB_Finalize and after a DLB_Init that fails, so
--barrier does not imply that the barrier module is initialized.
---
 src/LB_core/node_barrier.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LB_core/node_barrier.c b/src/LB_core/node_barrier.c
index e7f5afc..b9addc9 100644
--- a/src/LB_core/node_barrier.c
+++ b/src/LB_core/node_barrier.c
@@ -165,7 +165,7 @@ barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
     if (barrier_name == NULL) return NULL;
 
     barrier_t *barrier = NULL;
-    if (spd->options.barrier) {
+    if (spd->options.barrier && spd->barrier_info != NULL) {
         /* The register function cannot know whether the calling process is a new
         * participant or just a query for the pointer. If we have at least one
         * registered named barrier, we need to check the shared memory first. */
@@ -222,7 +222,7 @@ barrier_t* node_barrier_register(subprocess_descriptor_t *spd,
 
 int node_barrier(const subprocess_descriptor_t *spd, barrier_t *barrier) {
     int error;
-    if (spd->options.barrier) {
+    if (spd->options.barrier && spd->barrier_info != NULL) {
         /* Check whether barrier is valid */
         barrier_info_t *barrier_info = spd->barrier_info;
         if (barrier == NULL) {
@@ -274,7 +274,7 @@ int node_barrier(const subprocess_descriptor_t *spd, barrier_t *barrier) {
 
 int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
     int error;
-    if (spd->options.barrier) {
+    if (spd->options.barrier && spd->barrier_info != NULL) {
         barrier_info_t *barrier_info = spd->barrier_info;
         if (barrier == NULL) {
             pthread_mutex_lock(&mutex);
@@ -335,7 +335,7 @@ int node_barrier_attach(subprocess_descriptor_t *spd, barrier_t *barrier) {
 
 int node_barrier_detach(subprocess_descriptor_t *spd, barrier_t *barrier) {
     int error;
-    if (spd->options.barrier) {
+    if (spd->options.barrier && spd->barrier_info != NULL) {
         barrier_info_t *barrier_info = spd->barrier_info;
         if (barrier == NULL) {
             pthread_mutex_lock(&mutex);
-- 
2.43.0


From 6b3d4601ac237c397157ed55bae75c9ada9239db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:21 +0000
Subject: [PATCH 100/112] fix: a failed registration in procinfo left a pointer
 to a process

The pointer to the own process was set even if its mask could not be
registered. The shared memory is closed right after, and a later DROM call
on pid 0 used that pointer.
---
 src/LB_comm/shmem_procinfo.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LB_comm/shmem_procinfo.c b/src/LB_comm/shmem_procinfo.c
index 0a66ea5..fb39ee2 100644
--- a/src/LB_comm/shmem_procinfo.c
+++ b/src/LB_comm/shmem_procinfo.c
@@ -316,6 +316,7 @@ static int shmem_procinfo__init_(pid_t pid, pid_t preinit_pid, const cpu_set_t *
                 } else {
                     // Revert process registration if mask registration failed
                     process->pid = NOBODY;
+                    process = NULL;
                 }
             }
         }
-- 
2.43.0


From 39f6ac93f773abd6468f847e78d6857faafb40f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:21 +0000
Subject: [PATCH 101/112] fix: DLB_Finalize from an observer thread never
 returned

With any monitoring region open, TALP kept trying to stop it.
---
 src/LB_core/DLB_kernel.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index fdb01e1..b417ee8 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -212,6 +212,10 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
 
 int Finish(subprocess_descriptor_t *spd) {
     int error = DLB_SUCCESS;
+
+    // An observer thread could not stop the monitoring regions still open
+    thread_is_observer = false;
+
     instrument_event(RUNTIME_EVENT, EVENT_FINALIZE, EVENT_BEGIN);
 
 #if MPI_LIB
-- 
2.43.0


From 65684daac7236cbd40cf273d16a5cbbe8821971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:36 +0000
Subject: [PATCH 102/112] fix: DLB_Finalize closed a shared memory opened by
 DLB_DROM_Attach

A process with --talp only, or --ompt only, detached itself from the cpuinfo
(or also procinfo) shared memory that it had attached to as a third party.
---
 src/LB_core/DLB_kernel.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index b417ee8..140f85f 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -239,12 +239,17 @@ int Finish(subprocess_descriptor_t *spd) {
         node_barrier_finalize(spd);
         shmem_barrier__finalize(spd->options.shm_key);
     }
+    /* Finalize only the shared memories opened by Initialize, this process
+     * may also be attached to the others through DLB_DROM_Attach or similar */
     if (spd->lb_policy == POLICY_LEWI_MASK
             || spd->options.drom
-            || spd->options.talp
-            || spd->options.ompt
             || spd->options.preinit_pid) {
         shmem_cpuinfo__finalize(spd->id, spd->options.shm_key, spd->options.lewi_color);
+    }
+    if (spd->lb_policy == POLICY_LEWI_MASK
+            || spd->options.drom
+            || spd->options.talp
+            || spd->options.preinit_pid) {
         shmem_procinfo__finalize(spd->id, spd->options.debug_opts & DBG_RETURNSTOLEN,
                 spd->options.shm_key);
     }
-- 
2.43.0


From f296389fd86bb8f59c7739406593310595970d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:21 +0000
Subject: [PATCH 103/112] fix: acquire did not find an owned CPU after another
 one was stolen

The search stopped at the first CPU of the list not owned, which may be a CPU
stolen by DROM while the process has not polled yet.
---
 src/LB_comm/shmem_cpuinfo.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 3b6dadc..543ec3b 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -1244,9 +1244,9 @@ int shmem_cpuinfo__acquire_ncpus_from_cpu_subset(
         for (unsigned int i=0; i<cpus_priority_array->count; ++i) {
             cpuid_t cpuid = cpus_priority_array->items[i];
             const cpuinfo_t *cpuinfo = &shdata->node_info[cpuid];
-            /* Iterate until the first not owned CPU */
-            if (cpuinfo->owner != pid) break;
-            if (cpuinfo->guest != pid) {
+            /* Owned CPUs are first in the list, but some of them may have been
+             * stolen and the list is not updated until the process polls DROM */
+            if (cpuinfo->owner == pid && cpuinfo->guest != pid) {
                 /* This CPU is owned and not guested, no need to iterate anymore */
                 all_owned_cpus_are_guested = false;
                 break;
-- 
2.43.0


From 2ac4ad7b249a928e62e56c3d2601011e743e4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:50 +0000
Subject: [PATCH 104/112] fix: thread kept a reference to the subprocess freed
 by DLB_Finalize_sp

---
 src/apis/DLB_interface_sp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/apis/DLB_interface_sp.c b/src/apis/DLB_interface_sp.c
index 7e2336b..bcdda69 100644
--- a/src/apis/DLB_interface_sp.c
+++ b/src/apis/DLB_interface_sp.c
@@ -45,6 +45,7 @@ dlb_handler_t DLB_Init_sp(int ncpus, const_dlb_cpu_set_t mask, const char *dlb_a
     spd_enter_dlb(spd);
     int error = Initialize(spd, get_atomic_spid(), ncpus, mask, dlb_args);
     if (error != DLB_SUCCESS) {
+        spd_enter_dlb(NULL);
         spd_unregister(spd);
         free(spd);
         return NULL;
@@ -55,6 +56,8 @@ dlb_handler_t DLB_Init_sp(int ncpus, const_dlb_cpu_set_t mask, const char *dlb_a
 int DLB_Finalize_sp(dlb_handler_t handler) {
     spd_enter_dlb(handler);
     int error = Finish(handler);
+    /* this thread must not keep a reference to a freed subprocess */
+    spd_enter_dlb(NULL);
     spd_unregister(handler);
     free(handler);
     return error;
-- 
2.43.0


From f5c89c041674a789f0a5f7c5a124ea1be531fa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:02 +0000
Subject: [PATCH 105/112] fix: the first DLB_Finalize_sp closed the barrier of
 the other subprocesses

---
 src/LB_core/DLB_kernel.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 140f85f..456718f 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -35,6 +35,7 @@
 #include "LB_comm/shmem_talp.h"
 #include "apis/dlb_errors.h"
 #include "apis/dlb_talp.h"
+#include "support/atomic.h"
 #include "support/debug.h"
 #include "support/mytime.h"
 #include "support/tracing.h"
@@ -54,6 +55,9 @@
  * A thread may change this value to avoid participating in LeWI and TALP metrics. */
 __thread bool thread_is_observer = false;
 
+/* Number of subprocesses using the barrier shared memory */
+static atomic_int barrier_subprocesses;
+
 
 /* Status */
 
@@ -162,6 +166,7 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
                 &spd->process_mask, spd->options.shm_key);
     }
     if (spd->options.barrier) {
+        DLB_ATOMIC_ADD(&barrier_subprocesses, 1);
         shmem_barrier__init(spd->options.shm_key);
         node_barrier_init(spd);
     }
@@ -237,7 +242,9 @@ int Finish(subprocess_descriptor_t *spd) {
     }
     if (spd->options.barrier) {
         node_barrier_finalize(spd);
-        shmem_barrier__finalize(spd->options.shm_key);
+        if (DLB_ATOMIC_SUB(&barrier_subprocesses, 1) == 1) {
+            shmem_barrier__finalize(spd->options.shm_key);
+        }
     }
     /* Finalize only the shared memories opened by Initialize, this process
      * may also be attached to the others through DLB_DROM_Attach or similar */
-- 
2.43.0


From 7d451e7d9e8cb8fe0f6f74a85772d13354a1551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:03 +0000
Subject: [PATCH 106/112] fix: TALP samples of a thread were kept for another
 handle or after DLB_Finalize

---
 src/LB_core/DLB_talp.c   | 51 ++++++++++++++++++++++++++--------------
 src/LB_core/talp_types.h |  2 ++
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/LB_core/DLB_talp.c b/src/LB_core/DLB_talp.c
index 5744e51..ef33938 100644
--- a/src/LB_core/DLB_talp.c
+++ b/src/LB_core/DLB_talp.c
@@ -740,7 +740,8 @@ void talp_finalize(subprocess_descriptor_t *spd) {
 /*    Sample functions                                                           */
 /*********************************************************************************/
 
-static __thread talp_sample_t* _tls_sample = NULL;
+/* List of samples of the current thread, one per subprocess with TALP */
+static __thread talp_sample_t* _tls_samples = NULL;
 
 /* WARNING: this function may only be called when updating own thread's sample */
 static inline void set_sample_state(talp_sample_t *sample, enum talp_sample_state state,
@@ -761,15 +762,20 @@ static inline void set_sample_state(talp_sample_t *sample, enum talp_sample_stat
 
 /* Get the TLS associated sample */
 static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd) {
+    talp_info_t *talp_info = spd->talp_info;
+
     /* Thread already has an allocated sample, return it */
-    if (likely(_tls_sample != NULL)) return _tls_sample;
+    talp_sample_t *unused_sample = NULL;
+    for (talp_sample_t *sample = _tls_samples; sample != NULL; sample = sample->next) {
+        if (likely(sample->talp_info == talp_info)) return sample;
+        if (sample->talp_info == NULL) unused_sample = sample;
+    }
 
     /* Observer threads don't have a valid sample */
     if (unlikely(thread_is_observer)) return NULL;
 
     /* If a thread is created mid-region, its initial time is that of the
      * innermost open region, otherwise it is the current time */
-    talp_info_t *talp_info = spd->talp_info;
     int64_t last_updated_timestamp;
     pthread_mutex_lock(&talp_info->regions_mutex);
     {
@@ -782,19 +788,28 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
     }
     pthread_mutex_unlock(&talp_info->regions_mutex);
 
-    /* Otherwise, allocate. The sample must be initialized before other threads
-     * can see it. */
+    /* Otherwise, allocate, or reuse the one from a TALP that was finalized. The
+     * sample must be initialized before other threads can see it. */
+    talp_sample_t *new_sample = NULL;
     pthread_mutex_lock(&talp_info->samples_mutex);
     {
         int ncpus = ++talp_info->ncpus;
         void *samples = realloc(talp_info->samples, sizeof(talp_sample_t*)*ncpus);
         if (samples) {
             talp_info->samples = samples;
-            void *new_sample;
-            if (posix_memalign(&new_sample, DLB_CACHE_LINE, sizeof(talp_sample_t)) == 0) {
-                _tls_sample = new_sample;
-                *_tls_sample = (const talp_sample_t) {
+            void *ptr;
+            if (unused_sample != NULL) {
+                new_sample = unused_sample;
+            } else if (posix_memalign(&ptr, DLB_CACHE_LINE, sizeof(talp_sample_t)) == 0) {
+                new_sample = ptr;
+                new_sample->next = _tls_samples;
+                _tls_samples = new_sample;
+            }
+            if (new_sample != NULL) {
+                *new_sample = (const talp_sample_t) {
                     .last_updated_timestamp = last_updated_timestamp,
+                    .talp_info = talp_info,
+                    .next = new_sample->next,
                 };
                 talp_info->samples[ncpus-1] = new_sample;
             }
@@ -802,9 +817,9 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
     }
     pthread_mutex_unlock(&talp_info->samples_mutex);
 
-    fatal_cond(_tls_sample == NULL, "TALP: could not allocate thread sample");
+    fatal_cond(new_sample == NULL, "TALP: could not allocate thread sample");
 
-    set_sample_state(_tls_sample, disabled, talp_info->flags.papi);
+    set_sample_state(new_sample, disabled, talp_info->flags.papi);
 
 #ifdef INSTRUMENTATION_VERSION
     unsigned events[] = {MONITOR_CYCLES, MONITOR_INSTR};
@@ -812,18 +827,20 @@ static talp_sample_t* talp_get_thread_sample(const subprocess_descriptor_t *spd)
     instrument_nevent(2, events, papi_values);
 #endif
 
-    return _tls_sample;
+    return new_sample;
 }
 
 static void talp_dealloc_samples(const subprocess_descriptor_t *spd) {
-    /* This only nullifies the current thread pointer, but this function is
-     * only really important when TALP is finalized and then initialized again
-     */
-    _tls_sample = NULL;
-
     talp_info_t *talp_info = spd->talp_info;
     pthread_mutex_lock(&talp_info->samples_mutex);
     {
+        /* The samples are not freed because each thread keeps a pointer to its own
+         * one, which will need another one if TALP is initialized again */
+        if (talp_info->samples != NULL) {
+            for (int i = 0; i < talp_info->ncpus; ++i) {
+                talp_info->samples[i]->talp_info = NULL;
+            }
+        }
         free(talp_info->samples);
         talp_info->samples = NULL;
     }
diff --git a/src/LB_core/talp_types.h b/src/LB_core/talp_types.h
index 2411e24..e0b6e15 100644
--- a/src/LB_core/talp_types.h
+++ b/src/LB_core/talp_types.h
@@ -63,6 +63,8 @@ typedef struct DLB_ALIGN_CACHE talp_sample_t {
         not_useful_omp_in,
         not_useful_omp_out,
     } state;
+    const struct talp_info_t *talp_info;    /* TALP info that this sample belongs to */
+    struct talp_sample_t *next;             /* Sample of the same thread in another one */
 } talp_sample_t;
 
 /* The macrosample is a temporary aggregation of all metrics in samples of all,
-- 
2.43.0


From a3c2264c307c58d78294234278772cdb7eea6ecb Mon Sep 17 00:00:00 2001
From: root <r@r>
Date: Thu, 19 Nov 2026 07:52:31 +0000
Subject: [PATCH 107/112] fix: DLB_Finalize left the CPUs reserved by
 DLB_PreInit registered

The second DLB_Finalize (or the only one, in a launcher) only cleaned the
procinfo shared memory, so the CPUs not inherited stayed owned in cpuinfo
forever. A DLB_PreInit that fails in cpuinfo does not leave the process
registered in procinfo either.
---
 src/LB_core/DLB_kernel.c | 28 +++++++++++++++++++++++++++-
 src/LB_core/DLB_kernel.h |  1 +
 src/apis/DLB_interface.c |  7 ++-----
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index 456718f..f636fdb 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -290,7 +290,13 @@ int PreInitialize(subprocess_descriptor_t *spd, const cpu_set_t *mask,
     error = error ? error : shmem_cpuinfo_ext__init(spd->options.shm_key, spd->options.lewi_color);
     error = error ? error : shmem_procinfo_ext__init(spd->options.shm_key);
     error = error ? error : shmem_procinfo_ext__preinit(spd->id, mask, 0);
-    error = error ? error : shmem_cpuinfo_ext__preinit(spd->id, mask, 0);
+    if (error == DLB_SUCCESS) {
+        error = shmem_cpuinfo_ext__preinit(spd->id, mask, 0);
+        if (error < DLB_SUCCESS) {
+            /* Revert the registration of the process */
+            shmem_procinfo_ext__postfinalize(spd->id, false);
+        }
+    }
     // Close shmems even if there was an error
     int cpuinfo_finalize_err = shmem_cpuinfo_ext__finalize();
     error = error ? error : cpuinfo_finalize_err;
@@ -299,6 +305,26 @@ int PreInitialize(subprocess_descriptor_t *spd, const cpu_set_t *mask,
     return error;
 }
 
+int PreFinalize(subprocess_descriptor_t *spd) {
+    /* Undo PreInitialize: unregister whatever has not been inherited yet */
+    int error = DLB_SUCCESS;
+    error = error ? error : shmem_cpuinfo_ext__init(spd->options.shm_key, spd->options.lewi_color);
+    error = error ? error : shmem_procinfo_ext__init(spd->options.shm_key);
+    if (!error) {
+        int finalize_err = shmem_procinfo_ext__postfinalize(spd->id,
+                spd->options.debug_opts & DBG_RETURNSTOLEN);
+        if (finalize_err != DLB_ERR_NOPROC) {
+            error = finalize_err;
+        }
+        finalize_err = shmem_cpuinfo_ext__postfinalize(spd->id);
+        error = error ? error : finalize_err;
+    }
+    // Close shmems even if there was an error
+    shmem_cpuinfo_ext__finalize();
+    shmem_procinfo_ext__finalize();
+    return error;
+}
+
 int set_lewi_enabled(subprocess_descriptor_t *spd, bool enabled) {
     int error = DLB_SUCCESS;
     if (__sync_bool_compare_and_swap(&spd->lewi_enabled, !enabled, enabled)) {
diff --git a/src/LB_core/DLB_kernel.h b/src/LB_core/DLB_kernel.h
index 54a5e45..75c32c1 100644
--- a/src/LB_core/DLB_kernel.h
+++ b/src/LB_core/DLB_kernel.h
@@ -43,6 +43,7 @@ int Initialize(subprocess_descriptor_t *spd, pid_t id, int ncpus,
 int Finish(subprocess_descriptor_t *spd);
 int PreInitialize(subprocess_descriptor_t *spd, const cpu_set_t *mask,
         const char *lb_args);
+int PreFinalize(subprocess_descriptor_t *spd);
 int set_lewi_enabled(subprocess_descriptor_t *spd, bool enabled);
 int set_max_parallelism(subprocess_descriptor_t *spd, int max);
 int unset_max_parallelism(subprocess_descriptor_t *spd);
diff --git a/src/apis/DLB_interface.c b/src/apis/DLB_interface.c
index e95ccc9..9247db6 100644
--- a/src/apis/DLB_interface.c
+++ b/src/apis/DLB_interface.c
@@ -62,12 +62,9 @@ int DLB_Finalize(void) {
     } else if (__sync_bool_compare_and_swap(&thread_spd->dlb_preinitialized, true, false) ) {
         /* This is to support the case when a single process does DLB_PreInit + DLB_Init
          * The first DLB_Finalize must finalize everything except the CPUs not inherited
-         * during DLB_Init, if any. The second finalize must clean up the procinfo shmem.
+         * during DLB_Init, if any. The second finalize must clean up the cpuinfo and procinfo shmems.
          */
-        shmem_procinfo__finalize(thread_spd->id,
-                thread_spd->options.debug_opts & DBG_RETURNSTOLEN,
-                thread_spd->options.shm_key);
-        return DLB_SUCCESS;
+        return PreFinalize(thread_spd);
     }
     return DLB_NOUPDT;
 }
-- 
2.43.0


From 040f12a3d3d388fdaa8f0c5ccebdfe4e441cbcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:11 +0000
Subject: [PATCH 108/112] fix: dlb_taskset --borrow did not return the CPUs
 when the application ended

---
 src/utils/dlb_taskset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/dlb_taskset.c b/src/utils/dlb_taskset.c
index 12c0d40..a735441 100644
--- a/src/utils/dlb_taskset.c
+++ b/src/utils/dlb_taskset.c
@@ -203,7 +203,7 @@ static void execute(char **argv, const cpu_set_t *new_mask, bool borrow) {
     } else {
         wait(NULL);
         DLB_DROM_Attach();
-        int error = DLB_DROM_PostFinalize(pid, borrow);
+        int error = DLB_DROM_PostFinalize(pid, borrow ? DLB_RETURN_STOLEN : 0);
         if (error != DLB_SUCCESS && error != DLB_ERR_NOPROC) {
             // DLB_ERR_NOPROC must be ignored here
             dlb_check(error, pid, __FUNCTION__);
-- 
2.43.0


From 4386178154834d5a81f0f7d12081cef2170861c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:11 +0000
Subject: [PATCH 109/112] fix: dlb_taskset --remove failed because of processes
 that do not own the CPUs

---
 src/utils/dlb_taskset.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/dlb_taskset.c b/src/utils/dlb_taskset.c
index a735441..cb3570d 100644
--- a/src/utils/dlb_taskset.c
+++ b/src/utils/dlb_taskset.c
@@ -224,7 +224,7 @@ static void remove_affinity_of_one(pid_t pid, const cpu_set_t *cpus_to_remove, b
     // Remove cpus from the PID's mask
     bool mask_dirty = false;
     for (i=0; i<sys_size; ++i) {
-        if (CPU_ISSET(i, cpus_to_remove)) {
+        if (CPU_ISSET(i, cpus_to_remove) && CPU_ISSET(i, &pid_mask)) {
             CPU_CLR(i, &pid_mask);
             mask_dirty = true;
         }
-- 
2.43.0


From f42c987c7d30999e1650acd64bd7aaea8b50fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:36 +0000
Subject: [PATCH 110/112] fix: dlb_shm --list wrote beyond its buffer if
 DLB_ARGS is not set

---
 src/utils/dlb_shm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/dlb_shm.c b/src/utils/dlb_shm.c
index f69d7f3..05a85d7 100644
--- a/src/utils/dlb_shm.c
+++ b/src/utils/dlb_shm.c
@@ -154,7 +154,7 @@ void list_shdata_item(const char* shm_suffix, int list_columns,
         fprintf( stdout, "Found DLB shmem with id: %s\n", p );
         /* Modify DLB_ARGS */
         const char *dlb_args_env = getenv("DLB_ARGS");
-        size_t dlb_args_env_len = dlb_args_env ? strlen(dlb_args_env) + 1 : 0;
+        size_t dlb_args_env_len = (dlb_args_env ? strlen(dlb_args_env) : 0) + 1;
         const char * const new_dlb_args_base = "--verbose-format=node --shm-key=";
         char *dlb_args = malloc(dlb_args_env_len + strlen(new_dlb_args_base) + strlen(p) + 1);
         sprintf(dlb_args, "%s %s%s", dlb_args_env ? dlb_args_env : "", new_dlb_args_base, p);
-- 
2.43.0


From 806060a76f1081db5d9be941a95aebd6712d0390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:47 +0000
Subject: [PATCH 111/112] fix: DLB_PrintShmem wrote beyond its line buffer with
 many columns

---
 src/LB_comm/shmem_cpuinfo.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/LB_comm/shmem_cpuinfo.c b/src/LB_comm/shmem_cpuinfo.c
index 543ec3b..2ed8577 100644
--- a/src/LB_comm/shmem_cpuinfo.c
+++ b/src/LB_comm/shmem_cpuinfo.c
@@ -2290,9 +2290,16 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
     print_buffer_t buffer;
     printbuffer_init(&buffer);
 
-    /* Set up line buffer */
-    enum { MAX_LINE_LEN = 512 };
-    char line[MAX_LINE_LEN];
+    /* There is at least one column, and no more than CPUs */
+    if (columns > node_size) columns = node_size;
+    if (columns < 1) columns = 1;
+
+    /* Set up line buffer, large enough for all the columns */
+    enum { MAX_CELL_LEN = 64 };
+    enum { MIN_LINE_LEN = 512 };
+    size_t max_line_len = columns * MAX_CELL_LEN + 1;
+    if (max_line_len < MIN_LINE_LEN) max_line_len = MIN_LINE_LEN;
+    char *line = malloc(max_line_len);
     char *l;
 
     /* Calculate number of rows and cpus per column (same) */
@@ -2326,7 +2333,7 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
                         state == CPU_BUSY                       ? ANSI_COLOR_YELLOW :
                         guest == NOBODY                         ? ANSI_COLOR_GREEN :
                                                                   ANSI_COLOR_BLUE;
-                    l += snprintf(l, MAX_LINE_LEN-strlen(line),
+                    l += snprintf(l, max_line_len-strlen(line),
                             " %4d %s[ %*d / %*d ]" ANSI_COLOR_RESET,
                             cpuid,
                             code_color,
@@ -2339,7 +2346,7 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
                         state == CPU_BUSY                   ? "recl" :
                         guest == NOBODY                     ? "idle" :
                                                               "lent";
-                    l += snprintf(l, MAX_LINE_LEN-strlen(line),
+                    l += snprintf(l, max_line_len-strlen(line),
                             " %4d [ %*d / %*d / %s ]",
                             cpuid,
                             max_digits, owner,
@@ -2352,13 +2359,13 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
     }
 
     /* Print format */
-    snprintf(line, MAX_LINE_LEN,
+    snprintf(line, max_line_len,
             "  Format: <cpuid> [ <owner> / <guest> %s]", color ? "" : "/ <state> ");
     printbuffer_append(&buffer, line);
 
     /* Print color legend */
     if (color) {
-        snprintf(line, MAX_LINE_LEN,
+        snprintf(line, max_line_len,
                 "  Status: Disabled, "
                 ANSI_COLOR_RED "Owned" ANSI_COLOR_RESET ", "
                 ANSI_COLOR_YELLOW "Reclaimed" ANSI_COLOR_RESET ", "
@@ -2373,7 +2380,7 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
         any_cpu_request = queue_pid_t_size(&shdata_copy->node_info[cpuid].requests) > 0;
     }
     if (any_cpu_request) {
-        snprintf(line, MAX_LINE_LEN, "\n  Cpu requests (<cpuid>: <spids>):");
+        snprintf(line, max_line_len, "\n  Cpu requests (<cpuid>: <spids>):");
         printbuffer_append(&buffer, line);
         for (cpuid=0; cpuid<node_size; ++cpuid) {
             queue_pid_t *requests = &shdata_copy->node_info[cpuid].requests;
@@ -2381,12 +2388,12 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
                 /* Set up line */
                 line[0] = '\0';
                 l = line;
-                l += snprintf(l, MAX_LINE_LEN-strlen(line), "  %4d: ", cpuid);
+                l += snprintf(l, max_line_len-strlen(line), "  %4d: ", cpuid);
                 /* Iterate requests */
                 for (pid_t *it = queue_pid_t_front(requests);
                         it != NULL;
                         it = queue_pid_t_next(requests, it)) {
-                    l += snprintf(l, MAX_LINE_LEN-strlen(line), " %u,", *it);
+                    l += snprintf(l, max_line_len-strlen(line), " %u,", *it);
                 }
                 /* Remove trailing comma and append line */
                 *(l-1) = '\0';
@@ -2397,7 +2404,7 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
 
     /* Proc requests */
     if (queue_lewi_mask_request_t_size(&shdata_copy->lewi_mask_requests) > 0) {
-        snprintf(line, MAX_LINE_LEN,
+        snprintf(line, max_line_len,
                 "\n  Process requests (<spids>: <howmany>, <allowed_cpus>):");
         printbuffer_append(&buffer, line);
     }
@@ -2405,7 +2412,7 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
             queue_lewi_mask_request_t_front(&shdata_copy->lewi_mask_requests);
             it != NULL;
             it = queue_lewi_mask_request_t_next(&shdata_copy->lewi_mask_requests, it)) {
-        snprintf(line, MAX_LINE_LEN,
+        snprintf(line, max_line_len,
                 "    %*d: %d, %s",
                 max_digits, it->pid, it->howmany, mu_to_str(&it->allowed));
         printbuffer_append(&buffer, line);
@@ -2413,6 +2420,7 @@ void shmem_cpuinfo__print_info(const char *shmem_key, int shmem_color, int colum
 
     info0("=== CPU States ===\n%s", buffer.addr);
     printbuffer_destroy(&buffer);
+    free(line);
     free(shdata_copy);
 }
 
-- 
2.43.0


From 3723ca7b09168b54cccdd293b8bc832b195c5920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:31:44 +0000
Subject: [PATCH 112/112] fix: DLB_PreInit failed when given the environment of
 the child

---
 src/LB_core/DLB_kernel.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/LB_core/DLB_kernel.c b/src/LB_core/DLB_kernel.c
index f636fdb..f9e4d9c 100644
--- a/src/LB_core/DLB_kernel.c
+++ b/src/LB_core/DLB_kernel.c
@@ -49,6 +49,7 @@
 #include <sched.h>
 #include <stddef.h>
 #include <string.h>
+#include <unistd.h>
 
 
 /* By default all threads are participants.
@@ -274,6 +275,10 @@ int PreInitialize(subprocess_descriptor_t *spd, const cpu_set_t *mask,
         const char *lb_args) {
     // Initialize options
     options_init(&spd->options, lb_args);
+    if (lb_args == NULL) {
+        // DLB_PreInit: the flag may be only in the environment of the child process
+        spd->options.preinit_pid = getpid();
+    }
     if (spd->options.preinit_pid == 0) return DLB_ERR_INIT;
 
     debug_init(&spd->options);
-- 
2.43.0

