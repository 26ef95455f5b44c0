"""Single source of the property list: gen.py writes properties.jsonl and MANIFEST.json from it."""
P = []
def prop(id, title, statement, over, quant, why, files, mech, claim=True, note="", technique="explicit-state model checking of the implementation", level="model_checking", reason="", state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, claim=claim, note=note, technique=technique, level=level, reason=reason, state=state, observe=observe))

LEWI_FILES = ["src/LB_comm/shmem_cpuinfo.c", "src/LB_policies/lewi_mask.c", "src/LB_numThreads/numThreads.c", "src/support/mask_utils.c", "src/support/queue_template.h"]
LEWI_NOTE = ("Exhaustive within the stated depth: every operation sequence of 2-3 processes over all API operations is executed on the real library (several virtual processes in one address space, "
  "complete state hashed and restored) and compared step by step (return codes, callbacks, availability queries) with an independent reference machine. Trusts the virtual POSIX layer (shm, locks, clock). "
  "Each call is atomic here: interleavings inside a call are explored by C05-C13.")
TECH_OPS = "explicit-state model checking: breadth-first enumeration of all API operation sequences on the real code in lockstep with a reference machine"

prop("C01", "LeWI never lets two processes use one CPU beyond a pending reclaim",
  "At any time each CPU shared through LeWI is assigned to at most one process, a process only obtains a CPU that is free for it (owned, or lent by its owner and not in use, with SMT the whole core), and what every process is told through its callbacks and return codes agrees with that assignment. Two processes may only overlap on a CPU between the owner's reclaim and the moment the guest returns it, never in asynchronous mode once messages are delivered.",
  ["histories", "configurations"], "every sequence of LeWI calls of 2-3 processes, polling and asynchronous, with and without SMT, up to the explored depth",
  "Unit tests replay a few hand-written call sequences on two processes; exclusivity has to hold after every sequence of lend/reclaim/acquire/borrow/return calls of all the processes.",
  LEWI_FILES, [("lend/reclaim/acquire/borrow/return state machine under the shared memory lock", "src/LB_comm/shmem_cpuinfo.c"), ("callbacks that follow each change", "src/LB_policies/lewi_mask.c:resolve_cpuinfo_tasks")], note=LEWI_NOTE, technique=TECH_OPS,
  observe=["return codes", "enable/disable callbacks", "DLB_CheckCpuAvailability"])
prop("C02", "An owner always gets its CPUs back, and ownership is never lost",
  "A process that reclaims a CPU it owns gets it at once if nobody uses it, and otherwise the guest is marked to leave and the owner becomes the only next holder; only the owner can reclaim. Disabling, finalizing or re-initializing a process returns the CPUs it was using, retains or removes its own from the pool as configured, and leaves the node usable for the others.",
  ["histories", "configurations"], "every sequence of lend, borrow, reclaim, return, enable, disable, finalize and init calls of 2-3 processes up to the explored depth",
  "Tests cover a few fixed reclaim scenarios; ownership must survive any history, including processes that come and go while their CPUs are lent.",
  LEWI_FILES + ["src/apis/DLB_interface.c", "src/LB_core/DLB_kernel.c"], [("reclaim_cpu, return_cpu, register_cpu, deregister_cpu", "src/LB_comm/shmem_cpuinfo.c"), ("Initialize and Finish", "src/LB_core/DLB_kernel.c")], note=LEWI_NOTE, technique=TECH_OPS)
prop("C03", "A CPU that is idle and allowed is always found by a borrow or acquire",
  "A Borrow or Acquire request takes exactly the number of CPUs asked for, or all that are available if they are fewer, among those that are idle and allowed by the mask, the affinity policy and the maximum parallelism, in the order of the affinity policy. In particular no previous failed request, mask, limit or return makes a process miss an idle CPU.",
  ["histories", "configurations"], "every sequence of lend, acquire, borrow, return, max-parallelism calls (with counts and masks) up to the explored depth, for every affinity policy, topology and maximum parallelism explored",
  "Work conservation depends on the history (time-stamp shortcuts, cached idle sets, per-core eligibility), which fixed test sequences do not exercise.",
  LEWI_FILES, [("borrow/acquire from a priority list, time stamp of the last lent CPU, idle and occupied sets", "src/LB_comm/shmem_cpuinfo.c"), ("CPU priority list", "src/LB_policies/lewi_mask.c:lewi_mask_UpdateOwnershipInfo")], note=LEWI_NOTE, technique=TECH_OPS)
prop("C04", "Asynchronous LeWI requests are served, in order, exactly as far as asked",
  "In asynchronous mode an unsatisfied request stays pending until CPUs it allows become idle, when it is served in arrival order, one CPU per pending unit, with the requester notified exactly once; requests vanish when the process cancels them, is disabled, finalizes, or limits itself. A process whose CPU is reclaimed is told to leave and is queued to get it back.",
  ["histories", "configurations"], "every sequence of asynchronous LeWI calls of 2-3 processes up to the explored depth, including sequences that start with several queued requests",
  "Request queues are shared by all processes, so what a lend does depends on the complete history of requests; tests only sample a few of them.",
  LEWI_FILES + ["src/LB_comm/shmem_async.c"], [("per-CPU and global request queues, find_new_guest", "src/LB_comm/shmem_cpuinfo.c"), ("asynchronous messages", "src/LB_comm/shmem_async.c")], note=LEWI_NOTE, technique=TECH_OPS)
SCHED_NOTE = ("Exhaustive within the preemption bound: every interleaving, at the granularity of atomic operations, locks and shared-memory accesses, of 2-3 concurrent processes and their helper threads with 1-3 preemptive switches, on the real code. "
  "Trusts the virtual POSIX layer; memory is sequentially consistent. One class of reordered notifications is a recorded finding.")
TECH_SCHED = "stateless exploration of all thread interleavings of the real code within a preemption bound (controlled scheduler)"
prop("C05", "Concurrent LeWI calls keep CPUs exclusive and tell each process what it holds",
  "When several processes (or threads of one) call LeWI at the same time, initialize, or finalize, no CPU ends up held by two of them, each process has been told of every CPU it gained or lost, pending requests are not lost, and nobody deadlocks or crashes, also with the asynchronous helper threads in between; afterwards everyone can reclaim all it owns and lend it to the others again.",
  ["schedules", "histories"], "every interleaving, within the preemption bound, of pairs and triples of concurrent LeWI scripts of 1-2 calls, in polling and asynchronous mode, from states with idle, lent and borrowed CPUs, and of initialization and finalization",
  "Unit tests are sequential; races between the shared memory update, the notifications and the helper threads need particular interleavings.",
  ["src/LB_comm/shmem_cpuinfo.c", "src/LB_comm/shmem_async.c", "src/LB_policies/lewi_mask.c", "src/LB_comm/shmem.c"], [("critical sections", "src/LB_comm/shmem_cpuinfo.c"), ("message queues and helper threads", "src/LB_comm/shmem_async.c"), ("callbacks after the critical section", "src/LB_policies/lewi_mask.c:resolve_cpuinfo_tasks")], note=SCHED_NOTE, technique=TECH_SCHED, observe=["enable/disable callbacks", "return codes"])
TECH_MIX = "explicit-state enumeration of API operation sequences against a reference machine, and stateless exploration of all interleavings within a preemption bound, both on the real code"
COUNT_NOTE = ("Exhaustive within the stated bounds: operation sequences (2-3 processes) executed on the real library in lockstep with a reference machine, plus every interleaving at the granularity of atomic operations, locks and shared-memory accesses "
  "with at most 2-5 preemptive switches of 2-3 concurrent processes, including initialization and finalization. Trusts the virtual POSIX layer; memory is sequentially consistent.")
prop("C06", "Classic LeWI neither loses nor duplicates CPUs",
  "With CPU counts instead of masks (classic LeWI), the CPUs in use by all the processes plus the idle ones always equal the CPUs the processes brought, whatever they lend, reclaim, borrow, and however they are interleaved, disabled, initialized or finalized. A Reclaim gives a process back its own count, a Borrow takes the minimum of what it asks, what is idle and what its maximum parallelism allows, greedy mode takes everything idle, and the number of threads set through the callback is the number of CPUs held.",
  ["histories", "schedules", "configurations"], "every operation sequence up to the explored depth and every interleaving of short concurrent scripts within the preemption bound, for normal, greedy and keep-one-CPU configurations",
  "The shared counter is updated without a lock, so losing CPUs needs particular interleavings or histories that a test with one process does not produce.",
  ["src/LB_comm/comm_lend_light.c", "src/LB_policies/lewi.c", "src/LB_core/DLB_kernel.c"], [("lock-free idle CPU counter", "src/LB_comm/comm_lend_light.c"), ("thread count of the process", "src/LB_policies/lewi.c")], note=COUNT_NOTE, technique=TECH_MIX, observe=["return codes", "set_num_threads callback"])
prop("C07", "Asynchronous classic LeWI conserves CPUs and serves requests evenly",
  "With CPU counts in asynchronous mode, CPUs in use plus idle ones always equal the CPUs the processes brought; lent CPUs go first to pending requests, evenly among the requesters and never more than requested; a reclaim takes CPUs evenly from those that use more than theirs and queues them to get those back; the processes affected are told their new thread count exactly; and requests disappear when cancelled, disabled or finalized.",
  ["histories", "schedules", "configurations"], "every operation sequence up to the explored depth and every interleaving of short concurrent scripts and of the helper threads within the preemption bound",
  "What a lend or reclaim does depends on all the processes and on the order of asynchronous messages; tests check a handful of sequences on the shared memory functions only.",
  ["src/LB_comm/shmem_lewi_async.c", "src/LB_policies/lewi_async.c", "src/support/queues.c", "src/LB_comm/shmem_async.c"], [("requests and reclaims", "src/LB_comm/shmem_lewi_async.c"), ("even distribution", "src/support/queues.c:queue_lewi_reqs_pop_ncpus"), ("asynchronous messages", "src/LB_comm/shmem_async.c")], note=COUNT_NOTE, technique=TECH_MIX, observe=["return codes", "set_num_threads callback"])

DROM_NOTE = ("Exhaustive within the stated depth: every sequence of DROM calls of 2-3 processes and an administrator, over all masks of a 3-4 CPU node, is executed on the real library (state hashed and restored) and compared with an independent assignment of CPUs to processes; "
  "during the waits of synchronous calls every subset of the processes polls or finalizes. Trusts the virtual POSIX layer; calls are atomic except at their waits.")
prop("C08", "DROM moves CPUs between processes without losing or sharing any",
  "At any time every CPU of the node is either free or assigned to exactly one process registered in DROM. Setting a process mask takes free CPUs, steals those of processes that have no pending change, gives up the rest (to the process they were stolen from, if asked), or fails leaving everything as it was. The new mask reaches each affected process exactly once, with its next poll, query, or at once if the process itself set it; a synchronous call succeeds only when the processes have polled, and rolls back or reports the timeout otherwise.",
  ["histories", "schedules", "configurations"], "every sequence of set (self, remote, synchronous, return-stolen), poll, query, recover, finalize and init calls up to the explored depth over all masks of a 3-CPU node, with every choice of processes that poll during a wait",
  "Which CPUs end up free, stolen or returned depends on the whole history of masks of all the processes; tests check some sequences with two or three processes.",
  ["src/LB_comm/shmem_procinfo.c", "src/LB_core/DLB_kernel.c", "src/apis/DLB_interface_drom.c", "src/LB_comm/shmem_cpuinfo.c"], [("set_new_mask, steal_mask, register_mask, unregister_mask", "src/LB_comm/shmem_procinfo.c"), ("update of the CPU owner", "src/LB_comm/shmem_cpuinfo.c:shmem_cpuinfo__update_ownership"), ("poll", "src/LB_core/DLB_kernel.c:poll_drom")], note=DROM_NOTE, technique=TECH_OPS, observe=["return codes", "set_process_mask callback", "DLB_DROM_GetProcessMask", "DLB_DROM_GetPidList"])
prop("C09", "DROM pre-registered processes get the CPUs reserved for them",
  "DLB_DROM_PreInit reserves CPUs for a process to be launched, stealing them only if asked, or fails and leaves nothing registered. The process that starts with that reservation inherits, extends or shrinks it, and no CPU is owned twice or lost, whatever happens in between; DLB_DROM_PostFinalize releases the reservation and returns stolen CPUs to their previous owner if asked, and DLB_DROM_RecoverStolenCpus gives a process back exactly its stolen CPUs that are free. A launcher that reserves CPUs with DLB_PreInit releases with DLB_Finalize exactly those that no process has taken, so that they can be used again. An environment given for the child, whatever variables it has, gets what the child needs to find its reservation (and OMP_NUM_THREADS, if it is set, the number of CPUs given by an administrator); nothing else in it, nor the environment of the caller, changes.",
  ["histories", "schedules", "configurations"], "every environment of up to 2 (thorough 3) of 8 kinds of variable; every sequence of PreInit (by an administrator or a launcher), Init (inheriting), Finalize, PostFinalize, recover, set and poll calls up to the explored depth over all masks of 3-4 CPUs",
  "The four inheritance cases combine with any previous history of masks of other processes; tests check them one by one on a fresh node.",
  ["src/LB_comm/shmem_procinfo.c", "src/apis/DLB_interface_drom.c", "src/LB_comm/shmem_cpuinfo.c"], [("inheritance of a pre-registered process", "src/LB_comm/shmem_procinfo.c:shmem_procinfo__init_"), ("environment of the child", "src/support/env.c:add_to_environ"), ("shmem_procinfo_ext__preinit, postfinalize, recover_stolen_cpus", "src/LB_comm/shmem_procinfo.c")], note=DROM_NOTE, technique=TECH_OPS)
prop("C10", "CPU ownership changed by DROM is honoured by LeWI",
  "When DROM moves a CPU, its new owner becomes the one that can lend and reclaim it, at its next poll, even if the CPU is lent or guested at that moment; the previous owner and any guest are told to leave, LeWI requests that became meaningless disappear, and after every process has polled no CPU is used by two processes, unreachable, or still claimed by its previous owner.",
  ["histories", "configurations"], "every interleaved sequence of DROM and LeWI calls of 2-3 processes up to the explored depth, in polling and asynchronous mode, from several starting states",
  "The two modules are tested separately; their combination depends on the LeWI state of each CPU when the mask changes.",
  ["src/LB_comm/shmem_cpuinfo.c", "src/LB_policies/lewi_mask.c", "src/LB_core/DLB_kernel.c"], [("update_ownership", "src/LB_comm/shmem_cpuinfo.c:shmem_cpuinfo__update_ownership"), ("lewi_mask_UpdateOwnership", "src/LB_policies/lewi_mask.c")], note=LEWI_NOTE, technique=TECH_OPS, observe=["return codes", "enable/disable/set_process_mask callbacks"])
prop("C27", "dlb_taskset changes exactly the CPUs it is asked to change",
  "dlb_taskset --set gives the process exactly the CPUs of the list (taking them from their owners, which get them back at the end if --borrow) or fails and says why. --remove takes the CPUs of the list from every process that owns some of them (or only from --pid) and touches no other, and does not fail because of processes that own none of them. An application launched with --set starts bound to those CPUs and owning them, or is not launched; when it ends, with or without having used DLB, its CPUs are released and with --borrow those stolen for it are back at their previous owners. --list and --getpid report the state that DROM holds. The exit code and the output agree with what was done, and invalid combinations of options fail without doing anything.",
  ["histories", "inputs", "configurations"], "every sequence of dlb_taskset commands (all lists of 3 CPUs, with and without --pid and --borrow, and all subsets of the options), of the events of the launched application and of polls, finalizations and initializations of 2 DROM processes up to the explored depth",
  "The tool combines several DROM calls on processes that may have pending masks, own none of the CPUs or end in between; it has no unit tests.",
  ["src/utils/dlb_taskset.c", "src/LB_comm/shmem_procinfo.c", "src/apis/DLB_interface_drom.c"], [("set, remove, execute, list", "src/utils/dlb_taskset.c:main"), ("flags of PreInit and PostFinalize", "src/apis/DLB_interface_drom.c")], note=DROM_NOTE, technique=TECH_OPS, observe=["exit codes", "output", "process masks", "affinity of the launched application"])
prop("C29", "dlb_run reserves the CPUs of its application and always releases them",
  "dlb_run reserves the CPUs that it is bound to before starting the application, which inherits exactly those when it initializes DLB; if they cannot be reserved it fails and starts nothing. When the application ends (normally, by a signal, without using DLB, with other CPUs than those reserved, after its reservation or its mask were changed by an administrator, or because it could not be executed), or when dlb_run is asked to terminate by a signal, everything still reserved is free again, no CPU of another process is touched, and the exit code tells whether dlb_run did its work; after such a signal it waits only a limited time for an application that does not end. Without an application, or with an unknown option, it starts and reserves nothing.",
  ["histories", "configurations"], "every run of dlb_run on 4 affinity masks of a 3-CPU node with every sequence of up to 2 (thorough 3) of 10 events while it waits (initialize with 4 masks, poll, finalize, changes of the masks by an administrator, another process ending or starting), ending normally, killed or by a signal to dlb_run, from every state reached by runs, mask changes, polls, initializations and finalizations of other processes up to the explored depth",
  "What is left of the reservation depends on what the application and the administrator did meanwhile, and a signal takes another path to the end; the tool has no tests.",
  ["src/utils/dlb_run.c", "src/LB_core/DLB_kernel.c", "src/LB_comm/shmem_procinfo.c"], [("launch, wait, signals", "src/utils/dlb_run.c:execute"), ("release", "src/LB_core/DLB_kernel.c:PreFinalize")], note=DROM_NOTE, technique=TECH_OPS, observe=["exit codes", "output", "process masks", "free CPUs"])
TOOL_NOTE = ("Exhaustive within the stated depth: every sequence of calls of 3 processes on 2 shared memory keys is executed on the real library, and the output of the real tool, run from every state reached, is parsed and compared with an independent record of the node. "
  "Trusts the virtual POSIX layer; the directory, deletion, exit and output of the tool are stand-ins.")
prop("C28", "dlb_shm and DLB_PrintShmem show the true state; --delete takes only DLB's",
  "dlb_shm --list shows every shared memory key that the user has exactly once, whatever the order of the directory and with DLB_ARGS set or not, and for each of them exactly the state of that node and no other: every CPU once with its owner, the process that uses it and whether it is busy, lent, idle or reclaimed, the pending CPU requests, every registered process once with its mask, its future mask if it has a pending one and the CPUs stolen from it, and the barriers and regions; DLB_PrintShmem does the same for the key of the caller. Any number of columns and any number of CPUs can be asked for without going beyond a buffer, and looking changes nothing. dlb_shm --delete deletes exactly the regular files of the user that have the names of DLB, a file that cannot be deleted is reported, and invalid combinations of options delete nothing and fail.",
  ["histories", "inputs", "configurations"], "every sequence of lend, borrow, acquire, reclaim, return, barrier, region, DROM, initialize and finalize calls of 3 processes on 2 keys up to the explored depth, with listings (several numbers of columns, with and without colour and environment, both orders of the directory) from every state reached; every subset of 10 kinds of directory entry and every failing deletion; 4 and 64 CPUs",
  "The listing is the only view that an administrator has of a node, and deletion is destructive; neither has any test.",
  ["src/utils/dlb_shm.c", "src/LB_comm/shmem_cpuinfo.c", "src/LB_comm/shmem_procinfo.c", "src/LB_comm/shmem_barrier.c", "src/LB_comm/shmem_talp.c"], [("keys, deletion, options", "src/utils/dlb_shm.c:list_shdata"), ("tables", "src/LB_comm/shmem_cpuinfo.c:shmem_cpuinfo__print_info"), ("entry point", "src/LB_core/DLB_kernel.c:print_shmem")], note=TOOL_NOTE, technique=TECH_OPS, observe=["output", "exit codes", "deleted files", "shared memories"])
prop("C20", "A blocking call lends the CPUs of its thread and gets them back",
  "With LeWI and CPU masks, when a thread enters a blocking call (MPI, and others, unless LeWI for them is disabled) the CPUs that it is bound to (all, or all but those of its first core if one must be kept) are lent to the node, without asking the process to leave them. When the call ends, those that the process owns are reclaimed and those borrowed are kept if nobody took them; the ones that were taken are the only ones the process is told to leave (at once in asynchronous mode, with its next Return in polling mode), it is never told again about a CPU that it never left, and never keeps one held by another process.",
  ["histories", "configurations"], "every interleaved sequence of blocking calls of a thread bound to 1-2 own or borrowed CPUs with lend, reclaim, acquire, borrow, return, DROM, enable/disable and init/finalize calls of 2-3 processes up to the explored depth, in polling and asynchronous mode",
  "Other processes take, reclaim and return the CPUs while the thread is blocked; the test of this path uses a fixed sequence with one CPU.",
  ["src/LB_policies/lewi_mask.c", "src/LB_core/DLB_kernel.c", "src/LB_comm/shmem_cpuinfo.c"], [("into and out of a blocking call", "src/LB_policies/lewi_mask.c:lewi_mask_OutOfBlockingCall"), ("entry points", "src/LB_core/DLB_kernel.c:into_sync_call")], note=LEWI_NOTE, technique=TECH_OPS, observe=["return codes", "enable/disable callbacks"])

prop("C21", "OpenMP programs use exactly the CPUs that DLB gives to their process",
  "With --lewi --ompt --ompt-thread-manager=omp5, and without a single call to DLB in the program, at every parallel region (unless nested, or explicitly sequential for lending) the new process mask of DROM is applied, reclaimed CPUs are returned, own CPUs are reclaimed and idle CPUs are borrowed according to --lewi-ompt; the number of threads of the next region is the number of CPUs that the process holds (whole cores by OMP_PLACES or the threads per core requested), each thread of the region is bound to one of them and no other, own CPUs first and without sharing any while there are enough; and if so configured everything but one CPU is lent at the end of the region. The CPUs used by the program are always those that the rest of the node sees as given to it, also after blocking calls (where the others are lent, and own ones recovered) and changes of its mask.",
  ["histories", "configurations"], "every sequence of OMPT events of the OpenMP process (parallel regions, also nested or of one thread, blocking calls, direct DLB calls) interleaved with LeWI and DROM calls of 1-2 other processes up to the explored depth, for all --lewi-ompt values, OMP_NUM_THREADS and OMP_PLACES settings, with and without SMT",
  "The thread manager keeps its own copy of the mask, changed by callbacks, by the regions and by blocking calls, which must agree with shared memory after any history; its test runs a few regions in one process.",
  ["src/LB_numThreads/omptm_omp5.c", "src/LB_numThreads/omptool.c", "src/LB_policies/lewi_mask.c"], [("callbacks, parallel begin/end, binding", "src/LB_numThreads/omptm_omp5.c:omptm_omp5__parallel_begin"), ("OMPT dispatch", "src/LB_numThreads/omptool.c")], note=LEWI_NOTE, technique=TECH_OPS, observe=["omp_set_num_threads", "thread affinity", "enable/disable callbacks", "CPU state"])

TALP_NOTE = ("Exhaustive within the stated depth: every sequence of operations (as the MPI and OpenMP runtimes call them) by 1-3 threads with a virtual clock is executed on the real library (state hashed, time-shift invariant) and every field of every region compared with an independent accounting model; "
  "concurrent threads explored at every memory access with 2-3 preemptions. Trusts the virtual POSIX layer and clock; PAPI counters and MPI reductions are not covered.")
prop("C14", "TALP regions measure exactly the time and events while they are open",
  "For every sequence of register, start, stop, reset, update and query calls and MPI calls of any threads, a region's elapsed time is the time it was started, its useful and MPI times, MPI calls and measurements are those of the threads while it was open and nothing else; names identify regions, region selection disables exactly the others, nested and overlapping regions are independent, and queries return the same values. Concurrent calls from several threads do not lose, repeat or corrupt anything: a registration gives one region, a start or stop succeeds once, and memory is never used after being freed.",
  ["histories", "schedules", "configurations"], "every sequence of region operations and MPI calls of 1-2 threads up to the explored depth over several regions and selection strings, and every interleaving of 2-3 threads within the preemption bound",
  "Tests check one or two fixed sequences, mostly in one thread; the accounting is incremental over the complete history of states of every thread, and is updated by other threads.",
  ["src/LB_core/DLB_talp.c", "src/apis/DLB_interface_talp.c"], [("regions: register, start, stop, reset", "src/LB_core/DLB_talp.c:monitoring_region_start"), ("samples of each thread and their aggregation", "src/LB_core/DLB_talp.c:talp_aggregate_samples")], note=TALP_NOTE, technique=TECH_MIX, observe=["dlb_monitor_t fields", "return codes"])
prop("C15", "TALP splits the time of OpenMP threads exactly by what they were doing",
  "Whatever events the OpenMP runtime delivers (thread begin and end, parallel begin and end, implicit tasks, barriers, explicit tasks, nested parallel regions) mixed with MPI calls and region operations, every nanosecond of every known thread while a region is open is added to exactly one of useful, MPI, load imbalance, scheduling and serialization time of that region, according to the documented rule (threads of an unfinished parallel region are load imbalance up to the least waiting thread, which is scheduling), and parallel regions and tasks are counted once.",
  ["histories", "configurations"], "every valid sequence of OMPT events of up to 4 threads, with nesting, MPI calls and region operations, up to the explored depth",
  "Tests go through a fixed list of events; the split depends on the order of the events of all the threads, also at the end of each parallel region.",
  ["src/LB_core/DLB_talp.c", "src/LB_numThreads/omptool.c"], [("OpenMP callbacks of TALP", "src/LB_core/DLB_talp.c:talp_openmp_parallel_end"), ("load balance and scheduling of a parallel region", "src/LB_core/DLB_talp.c:talp_aggregate_samples_parallel"), ("OMPT events", "src/LB_numThreads/omptool.c")], note=TALP_NOTE, technique=TECH_OPS, observe=["dlb_monitor_t fields"])

SHM_NOTE = ("Exhaustive within the stated depth: every operation sequence (including crashes and attaching observers) runs on the real library and its real shared memory layout, and every viewer asks for everything after every operation; the collective and the attach/remove race explored at every memory access with 2-3 preemptions. "
  "Trusts the virtual POSIX layer (shm_open, fallocate, mutex). At most as many attached processes as CPUs.")
prop("C17", "Any process of the node sees the TALP data of every process exactly",
  "With --talp-external-profiler, at any time any process of the node, including observers that attach and detach at any moment and dlb_shm, gets from the list of processes, the times of a process, the times of a region in the node and the node metrics exactly the processes that exist with that region and the values of their last update; finalized processes disappear, dead processes disappear when somebody opens the shared memory, space is reused, and nothing is left when the last one leaves. Observers never disturb the processes. The node collective gives every process the metrics of all of them and leaves everything else as it was.",
  ["histories", "schedules", "crash_points", "configurations"], "every sequence of lifecycle, region, MPI, update, attach, detach, print and crash operations of 2 processes and an observer up to the explored depth; every interleaving of the node collective of 2-3 processes within the preemption bound",
  "Tests use one process, or equal processes in a fixed order, and never attach an observer with other options than the application; the table is shared by processes that come and go.",
  ["src/LB_comm/shmem_talp.c", "src/LB_comm/shmem.c", "src/LB_core/DLB_talp.c", "src/apis/DLB_interface_talp.c"], [("table of regions", "src/LB_comm/shmem_talp.c:shmem_talp__register"), ("external queries", "src/apis/DLB_interface_talp.c:DLB_TALP_GetNodeTimes"), ("node collective", "src/LB_core/DLB_talp.c:talp_collect_pop_node_metrics")], note=SHM_NOTE, technique=TECH_MIX, observe=["DLB_TALP_GetNodeTimes", "DLB_TALP_GetTimes", "DLB_TALP_QueryPOPNodeMetrics", "DLB_TALP_CollectPOPNodeMetrics", "DLB_TALP_GetPidList"])

BAR_NOTE = ("Exhaustive within the stated depth: every sequence of lifecycle, register, attach, detach and barrier calls (a barrier really blocks its thread), including crashes, runs on the real library in lockstep with the sets of participants and waiting processes; rounds of barriers and concurrent "
  "registrations explored at every shared-memory access with 1-3 preemptions. Trusts the virtual POSIX layer. Excluded: initializing, registering or detaching a barrier while others wait in it (DLB aborts after 1 s by design).")
prop("C12", "Node barriers release exactly when every attached process has arrived",
  "A process that calls a node barrier it is attached to leaves only after all the processes attached to that barrier at that time arrived, and does leave then, in every consecutive round; the default and each named barrier are independent; attach, detach and register return the number of participants or the documented error, count each process once whatever threads call them, and detached processes do not wait. Barriers are reused when nobody uses them, survive the crash of others, and lend the CPU of who waits only if LeWI is enabled for that barrier by option or flag.",
  ["histories", "schedules", "crash_points", "configurations"], "every sequence of init, finalize, crash, register, attach, detach and barrier calls of 2-3 processes over the default and named barriers up to the explored depth, and every interleaving of rounds and of concurrent registrations within the preemption bound",
  "Tests use a fixed script per process; participants come and go between rounds, and the number of participants is kept in several places.",
  ["src/LB_comm/shmem_barrier.c", "src/LB_core/node_barrier.c"], [("barrier with participants", "src/LB_comm/shmem_barrier.c:shmem_barrier__barrier"), ("list of barriers of a process", "src/LB_core/node_barrier.c:node_barrier_register"), ("LeWI selection", "src/LB_core/node_barrier.c:parse_lewi_barrier")], note=BAR_NOTE, technique=TECH_MIX, observe=["return codes", "blocked threads", "DLB_BorrowCpu of other process"])

CRASH_NOTE = ("Exhaustive within the stated depth: every sequence of operations with a death anywhere is executed on the real library and followed by a complete functional check of the node; in the schedules a process dies at every memory access of DLB_Init and DLB_Finalize while others run. "
  "Excluded: after a death inside a critical section only the newcomer's clean failure is required (DLB documents dlb_shm --delete); CPUs counted by classic LeWI that the dead process lent or borrowed (known findings).")
prop("C11", "After a process dies the node recovers as soon as another one starts",
  "If processes die at any point of any history, then when another process initializes DLB (taking the place of a dead one, or not) it gets its CPUs, the dead are not listed any more, their pending requests are never served, the CPUs they had borrowed return to their owners and those they had lent do not stay lent in their name, live processes keep their CPUs and masks, and afterwards every process can lend, acquire, reclaim and move CPUs as in a fresh node and the last one to finalize leaves no shared memory. If it died while it was modifying the shared data, a new process does not hang: it fails with a message.",
  ["histories", "crash_points", "schedules", "configurations"], "every sequence of LeWI, DROM, init and finalize calls of 2-3 processes with up to 2 deaths, up to the explored depth, each one followed by the replacement of the dead and a check of everything; a death at every scheduling point of concurrent initializations and finalizations",
  "No test kills a process in the middle of its use of the shared CPUs; the clean-up has to find everything that the dead process left in six shared memories.",
  ["src/LB_comm/shmem.c", "src/LB_comm/shmem_cpuinfo.c", "src/LB_comm/shmem_procinfo.c", "src/LB_comm/shmem_lewi_async.c", "src/LB_comm/shmem_async.c", "src/LB_comm/comm_lend_light.c"], [("list of processes and clean-up", "src/LB_comm/shmem.c:shmem_consistency_check_pids"), ("clean-up of the CPUs", "src/LB_comm/shmem_cpuinfo.c:cleanup_shmem"), ("clean-up of masks", "src/LB_comm/shmem_procinfo.c:cleanup_shmem")], note=CRASH_NOTE, technique=TECH_MIX, observe=["return codes", "callbacks", "DLB_DROM_GetPidList", "files in /dev/shm"])
LIFE_NOTE = ("Every interleaving within the preemption bound of the real DLB_Init, DLB_Finalize, attach and detach of 2-3 processes (or 2 threads of one), at every access to shared memory and every system call; each final state is followed by a complete functional check. Trusts the virtual POSIX layer.")
prop("C13", "Processes can start and stop DLB at any moment without interfering",
  "However the initializations, finalizations, attachments and detachments of several processes of the node interleave, each one succeeds without hanging or aborting, all the processes that are in see each other (the list of processes, CPUs lent by one reach the others, DROM changes masks), nobody ends up in a shared memory that was removed, and when the last one leaves no shared memory is left in the system. If two threads of a process call DLB_Init or DLB_Finalize at once, exactly one does the work.",
  ["schedules", "configurations"], "every interleaving with up to 2-3 preemptions of initialization, use and finalization scripts of 2-3 processes, of observers that attach and detach, and of 2 threads of a process, in 7 configurations (LeWI with masks or counts, polling or asynchronous, DROM, TALP, barrier)",
  "The creation and removal of the shared memory files by processes that do not know each other is a race of a few instructions; tests start processes one after another.",
  ["src/LB_comm/shmem.c", "src/LB_core/DLB_kernel.c", "src/apis/DLB_interface.c", "src/LB_comm/shmem_cpuinfo.c", "src/LB_comm/shmem_procinfo.c", "src/LB_comm/shmem_async.c"], [("creation and removal", "src/LB_comm/shmem.c:shmem_init"), ("last one out", "src/LB_comm/shmem.c:shmem_finalize"), ("once per process", "src/apis/DLB_interface.c:DLB_Init")], note=LIFE_NOTE, technique=TECH_SCHED, observe=["return codes", "DLB_DROM_GetPidList", "DLB_LendCpuMask and DLB_AcquireCpuMask", "files in /dev/shm"])

TECH_ENUM = "explicit-state enumeration: exhaustive enumeration of a bounded input space (and of call sequences) on the real code (address sanitizer) against a reference machine"
NAT_NOTE = "Exhaustive within the stated input bounds: every input is run on the real code, compiled natively with the address and bounds sanitizers, and compared with a reference function written from the documentation. "
prop("C18", "DLB options take exactly the value that the user gave, whatever the way",
  "The value of each option is the last one given among its default, the arguments of DLB_Init and DLB_ARGS (which take precedence, and its old environment variable is the weakest), for every spelling that is documented: --flag, --no-flag, --flag=value, case, lists of items, deprecated names, any spaces, tabs or newlines between arguments. If that value is not valid, the option keeps its default and the user is warned; unknown or misplaced arguments are reported, or abort with werror, and never crash, hang or alter other options. DLB_SetVariable changes only options that may change at run time, and returns the documented error otherwise, DLB_GetVariable and the listing show the value in force and what is shown can be parsed back.",
  ["inputs", "histories", "configurations"], "every option with every form and value of its alphabet, every pair of options and of sources, every subset of the names of list options, every short string over the separators, and every set-get sequence of two",
  "Tests try a few fixed strings; the parser has one function for ~40 options with 16 types, two sources, deprecated aliases and static buffers.",
  ["src/support/options.c", "src/support/types.c", "src/support/debug.c"], [("parser", "src/support/options.c:parse_dlb_args"), ("values", "src/support/options.c:set_value"), ("text of values", "src/support/types.c")], note=NAT_NOTE, technique=TECH_ENUM, observe=["DLB_GetVariable", "DLB_SetVariable", "DLB_PrintVariables", "warnings"])
prop("C19", "CPU masks and topology: parsing, printing, set operations and orders are exact",
  "Parsing what DLB prints for a set of CPUs gives the same set, in every notation (list, ranges, hexadecimal, binary, Slurm), strings of any form never yield CPUs out of the node nor crash, and every set operation, iteration and core or NUMA query gives exactly the mathematical result for every mask and topology, including sparse core ids, offline CPUs, SMT of unequal sizes and nodes without CPUs. The orders of CPUs by ownership and affinity are total: own CPUs first, then those of each level, the rest starting from the first own core.",
  ["inputs", "configurations"], "every subset of small nodes and every structured set of nodes up to 1024 CPUs, every pair of sets of 6 CPUs in every operation, every short string over the alphabet of masks, every topology of a family of /sys contents in every directory order",
  "Tests use a few masks on the topology of the machine; rounding to machine words, chunks of 64 CPUs and irregular topologies never occur there.",
  ["src/support/mask_utils.c"], [("parse and print", "src/support/mask_utils.c:mu_parse_mask"), ("orders", "src/support/mask_utils.c:mu_cmp_cpuids_by_ownership"), ("topology", "src/support/mask_utils.c:parse_system_files")], note=NAT_NOTE, technique=TECH_ENUM, observe=["mu_* functions", "masks used by LeWI and DROM"])
prop("C22", "TALP report files are well formed and contain exactly what was recorded",
  "Whatever mix of application regions, node and per-process records TALP has when it writes its report, every format (JSON, XML, CSV, text and printed) contains each record once, in order, with every field equal to the recorded value, and JSON, XML and CSV files can be read back by any conforming parser, for any characters in the names of regions and hosts and any locale of the application. Further reports to the same CSV file add rows without repeating the header, other formats are replaced; CSV reports of several kinds go to separate files. No file is created without data, a file that cannot be written only gives a warning, the locale of the caller is kept and no record remains for a later report.",
  ["inputs", "configurations", "histories"], "every number and order of records up to 3 of each kind, every field at its boundary values, every name of up to 2-3 special sequences, every sequence of 3-4 reports to the same file, in every format",
  "Tests write one report of each format and never read it back; special characters, several kinds of records, repeated reports and locales never occur.",
  ["src/support/talp_output.c"], [("writing", "src/support/talp_output.c:talp_output_finalize"), ("records", "src/support/talp_output.c:talp_output_record_process")], note=NAT_NOTE, technique=TECH_ENUM, observe=["--talp-output-file", "--talp-summary"])

MPI_NOTE = ("Exhaustive within the stated bounds: 1-4 real DLB processes (MPI interception layer included) run as threads of a controlled machine on a simulated MPI library; for every case the whole execution from MPI_Init "
  "to MPI_Finalize is run and the report and the answers of the queries compared with a ledger. Assumes that the simulated MPI collectives do what the MPI standard says.")
prop("C23", "TALP reports of an MPI application are the exact aggregate of all its processes",
  "For every placement of the ranks on nodes of equal or different sizes and every history of regions, useful time and MPI calls in each rank, the report written at MPI_Finalize by rank 0 and the result of DLB_TALP_CollectPOPMetrics and CollectPOPNodeMetrics are the exact aggregate of all processes: sums, maxima and efficiencies as defined, per-process and per-node records each once with the right identity, regions that only some processes have included. MPI_Finalize returns in every rank, and the result does not depend on the order in which the processes run or in which MPI reduces.",
  ["inputs", "configurations", "schedules", "histories"], "every placement of 1-4 ranks on nodes, every combination of script pairs and injected boundary measurements, every execution order and reduction order, every kind of summary, initialisation and finalisation",
  "Tests of this code run one MPI process if any; different node sizes, different sets of regions, reduction orders and boundary values never occur.",
  ["src/LB_core/DLB_talp.c", "src/LB_MPI/process_MPI.c", "src/support/perf_metrics.h", "src/support/talp_output.c"], [("reduction", "src/LB_core/DLB_talp.c:talp_mpi_reduction_fn"), ("finalisation", "src/LB_core/DLB_talp.c:talp_mpi_finalize"), ("identity of the process", "src/LB_MPI/process_MPI.c:get_mpi_info")], note=MPI_NOTE, technique=TECH_ENUM.replace("(address sanitizer) ", ""), observe=["--talp-summary", "--talp-output-file", "DLB_TALP_CollectPOPMetrics", "DLB_TALP_CollectPOPNodeMetrics"])
prop("C24", "MPI calls reach MPI unchanged, and DLB acts on them only as configured",
  "Every MPI function that DLB intercepts, from C and from each Fortran spelling, is called in the MPI library exactly once, with the arguments of the application, and returns what the library returned, whatever the state of DLB (before MPI_Init, after MPI_Finalize or DLB_Finalize, when DLB_Init failed, disabled, observer threads, several threads inside MPI). LeWI lends the CPUs of the calling thread only during the blocking calls selected by --lewi-mpi-calls, and has them back afterwards; TALP counts each call once and its time as MPI time, and updates the live measurements on blocking collectives; a pending DROM mask is applied after the call. DLB makes no MPI calls before MPI_Init or after MPI_Finalize and leaves no shared memory.",
  ["inputs", "configurations", "histories", "schedules"], "every intercepted call x every language x 13 configurations x 8 phases of the life of the process x ways to initialise; every sequence of representative calls and API calls; every interleaving of overlapping calls of 2-3 threads",
  "Unit tests call DLB's internal functions, no test calls the 276 wrappers; the table of calls is data that no test reads.",
  ["src/LB_MPI/mpicalls.json", "src/LB_MPI/process_MPI.c", "src/LB_MPI/MPI_intercept.c.in", "src/LB_MPI/MPI_interceptF.c.in", "src/LB_MPI/MPI_interface.c.in", "src/LB_MPI/MPI_calls_coded.h.in", "src/LB_core/DLB_kernel.c"], [("table of MPI calls", "src/LB_MPI/mpicalls.json"), ("around a call", "src/LB_MPI/process_MPI.c:before_mpi, after_mpi"), ("modules", "src/LB_core/DLB_kernel.c:into_sync_call, out_of_sync_call")], note=MPI_NOTE, technique=TECH_ENUM.replace("(address sanitizer) ", ""), observe=["MPI calls of the application", "calls received by the MPI library", "--lewi-mpi-calls"])
prop("C25", "Every API call in any state is answered as documented; refused ones do nothing",
  "Any function of the public API (LeWI, DROM, TALP, barriers, statistics, options), with any argument (CPUs and counts out of range, empty, foreign or nonexistent masks, any pid, list lengths of 0 or -1, unknown names, the special region handles), may be called in any state of the process: before DLB_Init, after one that failed, initialized with any combination of modules, disabled, finalized, initialized again, from an observer thread, attached as a third party. It does not crash or hang and returns one of its documented codes; it is refused with the error of the module that is not running, and not refused when it is; lists are not written beyond the length given. A call that returns an error, or that says that there was nothing to do, runs no callbacks and does not change what any later call returns, in this process or another one.",
  ["inputs", "histories", "configurations"], "11 configurations x 10-14 starting histories x every sequence of 1-3 calls out of 340 (functions with arguments), from the process or another process of the node",
  "Unit tests call the functions in the intended order; misuse and refused calls between any two other ones are not tested, and no test compares what follows.",
  ["src/apis/DLB_interface.c", "src/apis/DLB_interface_drom.c", "src/apis/DLB_interface_talp.c", "src/apis/DLB_interface_stats.c", "src/LB_core/DLB_kernel.c", "src/LB_core/node_barrier.c", "src/LB_core/lb_funcs.c", "src/LB_comm/shmem_procinfo.c", "src/LB_comm/shmem_cpuinfo.c"], [("entry points", "src/apis/DLB_interface*.c"), ("modules that are not running", "src/LB_core/DLB_kernel.c, src/LB_core/node_barrier.c")], technique=TECH_OPS, observe=["return codes and outputs of the API", "callbacks"])

prop("C26", "Subprocesses of one process behave as separate processes",
  "A process that calls DLB_Init_sp twice has two handles, each with its own CPUs, options, callbacks, regions and barriers. Whatever the sequence of calls through the two handles (initializing, enabling, lending, reclaiming, acquiring, borrowing, returning, polling DROM, blocking calls of the threads, barriers, monitoring regions, finalizing in any order and initializing again), every call returns the same code and the same values, and runs the same callbacks of the same handle with the same CPUs, as when two different processes make the same calls with DLB_Init; and other processes and DROM tools see the same. Finalizing one handle leaves the other one working, and a thread whose handle was finalized can keep calling MPI.",
  ["histories", "configurations"], "14 configurations, 2-3 starting histories, every sequence of 3-4 (thorough 4-5) calls out of 30-110 through the two handles and from other processes",
  "Unit tests of the handles only call each function once with one configuration; what one handle leaves behind for the other needs sequences of both.",
  ["src/apis/DLB_interface_sp.c", "src/LB_core/spd.c", "src/LB_core/DLB_kernel.c", "src/LB_comm/shmem_procinfo.c", "src/LB_comm/shmem_cpuinfo.c", "src/LB_comm/shmem_async.c", "src/LB_comm/shmem_lewi_async.c", "src/LB_policies/lewi_mask.c", "src/LB_core/node_barrier.c", "src/LB_core/DLB_talp.c"], [("handles", "src/apis/DLB_interface_sp.c, src/LB_core/spd.c"), ("modules shared by the handles of a process", "src/LB_comm/shmem_*.c (subprocesses_attached)")], technique=TECH_OPS, observe=["return codes and outputs of the API", "callbacks"])
