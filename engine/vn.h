/* VNODE: a virtual node.  Runs several virtual processes (each with its own copy of the
 * DLB library's writable data, TLS and heap), all sharing virtual POSIX shared memory,
 * inside one OS process; every source of nondeterminism is owned by the explorer, and
 * the complete state can be snapshotted, hashed and restored. */
#ifndef VN_H
#define VN_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

enum { VN_MAXPROC = 6, VN_MAXTHR = 16, VN_MAXSHM = 12, VN_MAXENV = 8, VN_MAXFILES = 8 };

/* why a call into the implementation did not return normally */
enum vn_exc {
    VN_OK = 0,
    VN_ABORT,       /* abort()/exit(): DLB PANIC */
    VN_DEADLOCK,    /* blocked forever in direct mode */
    VN_SEGV,        /* memory fault */
    VN_HANG,        /* did not terminate */
    VN_HEAP,        /* invalid free / heap corruption */
    VN_SYNC,        /* misuse of a synchronisation object */
    VN_CAPACITY     /* engine capacity exceeded: harness error */
};

enum vn_tstate { VT_FREE=0, VT_READY, VT_MUTEX, VT_COND, VT_BARRIER, VT_RDLOCK, VT_WRLOCK,
    VT_JOIN, VT_SLEEP, VT_SPIN, VT_DONE, VT_DEAD };

struct vn_thread {
    int state, proc;
    void *waddr;            /* object waited on */
    int64_t deadline;       /* <0: none */
    int timedout;
    int cond_sig;
    int barrier_gen;
    int join_tid;
    void *(*entry)(void*);
    void *arg;
    void *retval;
    void *sp;               /* saved stack pointer (coroutine) */
    int started, detached;
    const void *spin_addr; int spin_cnt; unsigned long spin_hash;
    int err;                /* errno */
    int crash_ok;
    void *mutex2;           /* mutex to reacquire after cond wait */
    int affinity_set; unsigned long affinity[16];
    int extra;              /* direct-mode thread other than the main one */
    int nheld;              /* mutexes in shared memory that it holds */
};

struct vn_proc {
    int used, pid, alive, nthreads;
    int exitcode;           /* enum vn_exc that killed it */
    size_t heap_top;        /* used bytes in arena */
    int heap_allocs;
    char env[VN_MAXENV][192];
    unsigned long affinity[16];
    int curcpu;
    int omp_threads;
};

struct vn_shm { int used, linked, nmaps; size_t size; char name[72]; };

/* everything the explorer needs to save besides the big regions */
struct vn_global {
    int64_t now;            /* ns */
    int cur_proc, cur_thread;
    int nprocs;
    struct vn_proc proc[VN_MAXPROC];
    struct vn_thread thr[VN_MAXTHR];
    struct vn_shm shm[VN_MAXSHM];
    struct { short slot, proc, mapped; } fds[32];   /* fd-100 -> shm slot+1; once mapped, the mapping holds the reference */
    int spurious;
};
extern struct vn_global G;

/* config (not part of state) */
extern int64_t vn_tick;         /* ns added on every clock read */
extern int vn_explore;          /* scheduling points enabled */
extern int vn_inproc_shared;    /* heap/static data are shared between threads: schedule on them too */
extern int vn_heap_check;        /* tsan builds: heap accesses must be inside allocated blocks */
extern size_t vn_user_size; extern void *vn_user_ptr;  /* harness ghost state */
extern int vn_capture; extern char vn_out[]; extern size_t vn_outlen;   /* stdout/stderr capture */
extern char vn_lastmsg[512];
extern void (*vn_file_hook)(const char *path, const char *mode, const char *data, size_t len);
extern char vn_exc_msg[512];
extern int vn_hang_secs;
extern int vn_sysconf_cpus;
extern int vn_mpi_rank;

void vn_boot(void);
void vn_reset(void);                         /* wipe the world: no processes, no shm */
int  vn_spawn(int pid);                      /* new virtual process; returns slot */
int  vn_holds(int slot);                     /* mutexes in shared memory that its threads hold, or held when it died */
void vn_kill(int slot);                      /* crash: threads vanish, mappings dropped */
void vn_exit_proc(int slot);                 /* forget a terminated process, freeing its slot */
void vn_setenv(int slot, const char *name, const char *value);
void vn_enter(int slot);                     /* make slot's main thread current (direct mode) */
void vn_leave(void);                         /* park current image */
int  vn_thread_create_in(int slot, void *(*fn)(void*), void *arg);
int  vn_main_thread(int slot);
int  vn_thread_extra(int slot);              /* another thread for direct calls (vn_call_thread) */
void vn_thread_forget(int tid);
int  vn_enabled(int tid);                    /* could make a step now (not counting sleepers) */
int  vn_can_wake(int tid);                   /* sleeping or timed-waiting */
int  vn_run(int tid);                        /* run coroutine until it blocks/finishes/yields */
void vn_wake(int tid);                       /* let time pass until tid's deadline */
int  vn_run_helpers(int slot);               /* run every coroutine of slot until quiescent */
int  vn_shm_count(void);                     /* linked shared memories */
int  vn_shm_find(const char *name);
void *vn_shm_addr(int s);
void vn_yield_point(const void *addr, int is_write);

/* Direct call with exception capture: returns VN_OK and result in *ret */
typedef long (*vn_fn)(long,long,long,long);
int vn_call(int slot, vn_fn fn, long a, long b, long c, long d, long *ret);
int vn_call_thread(int tid, vn_fn fn, long a, long b, long c, long d, long *ret);

/* raise an engine-level exception from harness callbacks */
void vn_raise(int exc, const char *msg);

/* snapshots */
struct vn_snap { unsigned char *buf; size_t len; };
void vn_canon_time(void);
extern int vn_keep_durations;                /* canonical times keep their differences */
void vn_save(struct vn_snap *s, int compress);
void vn_restore(const struct vn_snap *s);
void vn_snap_free(struct vn_snap *s);
void vn_hash(uint64_t h[2]);
size_t vn_world_bytes(void);
#ifdef __cplusplus
}
#endif
#endif
