/* VNODE runtime: see vn.h */
#include "vn.h"
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <time.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <vector>
#include <emmintrin.h>
#include <map>
#include <string>
#include <algorithm>

extern "C" { extern char __start_vnimg[], __stop_vnimg[], __start_vntls[], __stop_vntls[];
extern char __start_vnlibimg[] __attribute__((weak)), __stop_vnlibimg[] __attribute__((weak)); }

struct vn_global G;
int64_t vn_tick = 0;
int vn_explore = 0, vn_inproc_shared = 0;
size_t vn_user_size = 0; void *vn_user_ptr = nullptr;
int vn_capture = 0; char vn_out[1<<16]; size_t vn_outlen = 0;
char vn_lastmsg[512]; char vn_exc_msg[512];
void (*vn_file_hook)(const char*, const char*, const char*, size_t) = nullptr;
int vn_hang_secs = 10;
int vn_sysconf_cpus = 4;
int vn_mpi_rank = 0;
extern "C" { void (*vn_sleep_hook)(void) = nullptr; void (*vn_access_hook)(const void*, size_t, int) = nullptr; 
 void (*vn_kill_hook)(int,int) = nullptr; }

static const uintptr_t ARENA_BASE = 0x200000000000ULL; static const size_t ARENA_SZ = 1<<22;
static const uintptr_t STACK_BASE = 0x210000000000ULL; static const size_t STACK_SZ = 1<<18;
static const uintptr_t SHM_BASE   = 0x220000000000ULL; static const size_t SHM_SZ   = 1<<22;
static const uintptr_t IMG_BASE   = 0x230000000000ULL; static const size_t IMG_SZ   = 1<<18;
static const uintptr_t TLS_BASE   = 0x240000000000ULL; static const size_t TLS_SZ   = 1<<16;
static size_t imgsz, tlssz;
static std::vector<char> pristine_img, pristine_tls;
static void *sched_sp;             /* scheduler context while a coroutine runs */
static int in_coroutine = 0;
struct jmpframe { sigjmp_buf jb; jmpframe *prev; int depth_coroutine; };
static jmpframe *jtop = nullptr;
static volatile unsigned long opcount = 0; static volatile int in_impl = 0;

static char *arena(int p) { return (char*)(ARENA_BASE + (size_t)p * ARENA_SZ); }
static char *stk(int t) { return (char*)(STACK_BASE + (size_t)t * STACK_SZ); }
static char *shmaddr(int s) { return (char*)(SHM_BASE + (size_t)s * SHM_SZ); }
static char *img(int p) { return (char*)(IMG_BASE + (size_t)p * IMG_SZ); }
static char *tls(int t) { return (char*)(TLS_BASE + (size_t)t * TLS_SZ); }
static void mapfix(uintptr_t a, size_t n) {
    void *r = mmap((void*)a, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE|MAP_NORESERVE, -1, 0);
    if (r != (void*)a) { perror("vn mmap"); _exit(3); }
}

/* ---------------------------------------------------------------- contexts */
extern "C" void vn_switch(void **save_sp, void *load_sp);
asm(R"(
.text
.globl vn_switch
.type vn_switch,@function
vn_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vn_switch,.-vn_switch
)");

static void to_scheduler(void) {
    vn_thread &t = G.thr[G.cur_thread];
    vn_switch(&t.sp, sched_sp);
}
static void finish_thread(int tid, void *ret) {
    vn_thread &t = G.thr[tid];
    t.retval = ret;
    t.state = t.detached ? VT_FREE : VT_DONE;
}
extern "C" void vn_coentry(void) {
    int tid = G.cur_thread;
    void *r = G.thr[tid].entry(G.thr[tid].arg);
    finish_thread(tid, r);
    G.thr[tid].started = 0;
    void *dummy; vn_switch(&dummy, sched_sp);
    abort();
}

/* ---------------------------------------------------------------- images */
static void load_thread(int tid) {
    int p = G.thr[tid].proc;
    if (G.cur_thread == tid) return;
    if (G.cur_thread >= 0) {
        memcpy(tls(G.cur_thread), __start_vntls, tlssz);
    }
    if (G.cur_proc != p) {
        if (G.cur_proc >= 0) memcpy(img(G.cur_proc), __start_vnimg, imgsz);
        memcpy(__start_vnimg, img(p), imgsz);
        G.cur_proc = p;
    }
    memcpy(__start_vntls, tls(tid), tlssz);
    G.cur_thread = tid;
}
void vn_leave(void) {
    if (G.cur_thread >= 0) memcpy(tls(G.cur_thread), __start_vntls, tlssz);
    if (G.cur_proc >= 0) memcpy(img(G.cur_proc), __start_vnimg, imgsz);
    G.cur_thread = G.cur_proc = -1;
}
int vn_main_thread(int slot) {
    for (int t = 0; t < VN_MAXTHR; ++t)
        if (G.thr[t].state != VT_FREE && G.thr[t].proc == slot && !G.thr[t].entry && !G.thr[t].extra) return t;
    return -1;
}
void vn_enter(int slot) { load_thread(vn_main_thread(slot)); }

static int new_thread(int p, void *(*fn)(void*), void *arg) {
    for (int t = 0; t < VN_MAXTHR; ++t) if (G.thr[t].state == VT_FREE) {
        memset(&G.thr[t], 0, sizeof(vn_thread));
        vn_thread &T = G.thr[t];
        T.state = VT_READY; T.proc = p; T.entry = fn; T.arg = arg; T.deadline = -1; T.join_tid = -1;
        memcpy(tls(t), pristine_tls.data(), tlssz);
        if (fn) {
            char *top = stk(t) + STACK_SZ - 64;
            void **sp = (void**)top;
            *--sp = nullptr;                 /* alignment / fake return */
            *--sp = (void*)vn_coentry;
            for (int i = 0; i < 6; ++i) *--sp = nullptr;
            T.sp = sp; T.started = 1;
        }
        G.proc[p].nthreads++;
        return t;
    }
    vn_raise(VN_CAPACITY, "too many threads");
    return -1;
}
int vn_thread_create_in(int slot, void *(*fn)(void*), void *arg) { return new_thread(slot, fn, arg); }
int vn_thread_extra(int slot) { int t = new_thread(slot, nullptr, nullptr); if (t >= 0) G.thr[t].extra = 1; return t; }
void vn_thread_forget(int tid) { if (G.cur_thread == tid) vn_leave(); G.proc[G.thr[tid].proc].nthreads--; memset(&G.thr[tid], 0, sizeof(vn_thread)); }

int vn_spawn(int pid) {
    vn_leave();
    for (int p = 0; p < VN_MAXPROC; ++p) if (!G.proc[p].used) {
        memset(&G.proc[p], 0, sizeof(vn_proc));
        G.proc[p].used = 1; G.proc[p].pid = pid; G.proc[p].alive = 1;
        G.proc[p].affinity[0] = vn_sysconf_cpus >= 64 ? ~0UL : ((1UL << vn_sysconf_cpus) - 1);
        memcpy(img(p), pristine_img.data(), imgsz);
        G.nprocs++;
        new_thread(p, nullptr, nullptr);
        return p;
    }
    fprintf(stderr, "vn: too many processes\n"); _exit(3);
}
static void shm_gc(int s) {
    if (G.shm[s].used && !G.shm[s].linked && G.shm[s].nmaps <= 0) {
        memset(shmaddr(s), 0, G.shm[s].size);
        memset(&G.shm[s], 0, sizeof(vn_shm));
        for (auto &f : G.fds) if (f.slot == s + 1) memset(&f, 0, sizeof f);
    }
}
int vn_holds(int slot) { int n = 0; for (auto &t : G.thr) if (t.state != VT_FREE && t.proc == slot) n += t.nheld; return n; }
void vn_kill(int slot) {
    if (G.cur_proc == slot) vn_leave();
    G.proc[slot].alive = 0;
    for (int t = 0; t < VN_MAXTHR; ++t)
        if (G.thr[t].state != VT_FREE && G.thr[t].proc == slot) G.thr[t].state = VT_DEAD;
}
void vn_exit_proc(int slot) {
    if (G.cur_proc == slot) vn_leave();
    for (int t = 0; t < VN_MAXTHR; ++t)
        if (G.thr[t].state != VT_FREE && G.thr[t].proc == slot) memset(&G.thr[t], 0, sizeof(vn_thread));
    memset(&G.proc[slot], 0, sizeof(vn_proc));
    memset(img(slot), 0, imgsz);
    G.nprocs--;
}
void vn_setenv(int slot, const char *name, const char *value) {
    char buf[192]; size_t n = strlen(name);
    snprintf(buf, sizeof buf, "%s=%s", name, value);
    int free_i = -1;
    for (int i = 0; i < VN_MAXENV; ++i) {
        char *e = G.proc[slot].env[i];
        if (e[0] && !strncmp(e, name, n) && e[n] == '=') { memset(e,0,192); strcpy(e, buf); return; }
        if (!e[0] && free_i < 0) free_i = i;
    }
    if (free_i >= 0) strcpy(G.proc[slot].env[free_i], buf);
}

/* ---------------------------------------------------------------- exceptions */
void vn_raise(int exc, const char *msg) {
    snprintf(vn_exc_msg, sizeof vn_exc_msg, "%s", msg ? msg : "");
    if (in_coroutine) {
        int p = G.thr[G.cur_thread].proc;
        G.proc[p].alive = 0; G.proc[p].exitcode = exc;
        for (int t = 0; t < VN_MAXTHR; ++t)
            if (G.thr[t].state != VT_FREE && G.thr[t].proc == p) G.thr[t].state = VT_DEAD;
        void *dummy; vn_switch(&dummy, sched_sp);
        abort();
    }
    if (!jtop) { fprintf(stderr, "vn: exception %d outside a call: %s\n", exc, vn_exc_msg); _exit(3); }
    siglongjmp(jtop->jb, exc);
}
static void on_segv(int sig) {
    if (!in_impl) { signal(sig, SIG_DFL); raise(sig); return; }
    char b[64]; snprintf(b, sizeof b, "signal %d", sig);
    vn_raise(VN_SEGV, b);
}
static unsigned long last_op; static int same;
static void on_prof(int) {
    if (!in_impl) { same = 0; return; }
    if (last_op != opcount) { last_op = opcount; same = 0; return; }
    if (++same >= vn_hang_secs) { same = 0; vn_raise(VN_HANG, "does not terminate"); }
}

int vn_call(int slot, vn_fn fn, long a, long b, long c, long d, long *ret) { return vn_call_thread(vn_main_thread(slot), fn, a, b, c, d, ret); }
int vn_call_thread(int tid, vn_fn fn, long a, long b, long c, long d, long *ret) {
    load_thread(tid); int slot = G.thr[tid].proc;
    jmpframe f; f.prev = jtop; f.depth_coroutine = in_coroutine;
    ++opcount;
    int saved = in_impl;
    int e = sigsetjmp(f.jb, 0);
    if (e == 0) {
        jtop = &f; in_impl = 1;
        int svc = in_coroutine; in_coroutine = 0;
        long r = fn(a, b, c, d);
        in_coroutine = svc;
        if (ret) *ret = r;
    } else {
        in_coroutine = f.depth_coroutine;
        G.proc[slot].exitcode = e;
        vn_kill(slot);
    }
    in_impl = saved;
    jtop = f.prev;
    ++opcount;
    return e;
}

/* ---------------------------------------------------------------- scheduling */
template<class T> static T *peek(int proc, T *addr) {
    char *a = (char*)addr;
    if (a >= __start_vnimg && a < __stop_vnimg && proc != G.cur_proc)
        return (T*)(img(proc) + (a - __start_vnimg));
    return addr;
}
struct vmutex { int owner; int init; };             /* owner = tid+1, 0 free; init: 0 static, 0x4d555458 inited, 0xdead destroyed */
struct vcond { int init; int seq; int nwait; };
struct vbarrier { int init; unsigned count; unsigned arrived; int gen; int inside; };
struct vrwlock { int init; int writer; int readers; };
enum { VMAGIC = 0x4d555458, VDEAD = 0x0dead };

int vn_enabled(int tid) {
    vn_thread &t = G.thr[tid];
    switch (t.state) {
        case VT_READY: return 1;
        case VT_MUTEX: return t.timedout || peek(t.proc, (vmutex*)t.waddr)->owner == 0;
        case VT_COND: return t.cond_sig && (t.mutex2 == nullptr || peek(t.proc,(vmutex*)t.mutex2)->owner == 0);
        case VT_BARRIER: return t.timedout || peek(t.proc, (vbarrier*)t.waddr)->gen != t.barrier_gen;
        case VT_RDLOCK: return t.timedout || peek(t.proc, (vrwlock*)t.waddr)->writer == 0;
        case VT_WRLOCK: { vrwlock *r = peek(t.proc, (vrwlock*)t.waddr); return t.timedout || (r->writer == 0 && r->readers == 0); }
        case VT_JOIN: return G.thr[t.join_tid].state == VT_DONE;
    }
    return 0;
}
int vn_can_wake(int tid) {
    vn_thread &t = G.thr[tid];
    if (t.state == VT_SLEEP) return 1;
    return (t.state == VT_MUTEX || t.state == VT_RDLOCK || t.state == VT_WRLOCK) && t.deadline >= 0 && !t.timedout;
}
void vn_wake(int tid) {
    vn_thread &t = G.thr[tid];
    if (t.deadline > G.now) G.now = t.deadline;
    if (t.state == VT_SLEEP) t.state = VT_READY; else t.timedout = 1;
}
int vn_run(int tid) {
    vn_thread &t = G.thr[tid];
    load_thread(tid);
    if (t.state != VT_MUTEX && t.state != VT_COND && t.state != VT_BARRIER && t.state != VT_RDLOCK
            && t.state != VT_WRLOCK && t.state != VT_JOIN) t.state = VT_READY;
    void *saved_sched = sched_sp; int svc = in_coroutine; int svi = in_impl;
    in_coroutine = 1; in_impl = 1; ++opcount;
    void *target = t.sp;
    vn_switch(&sched_sp, target);
    in_coroutine = svc; sched_sp = saved_sched; in_impl = svi; ++opcount;
    return G.thr[tid].state;
}
int vn_run_helpers(int slot) {
    int ran = 0, again = 1;
    while (again) {
        again = 0;
        for (int t = 0; t < VN_MAXTHR; ++t)
            if (G.thr[t].entry && (slot < 0 || G.thr[t].proc == slot) && vn_enabled(t)) { vn_run(t); again = 1; ran++; }
        if (ran > 100000) { vn_raise(VN_HANG, "helpers never quiesce"); }
    }
    return ran;
}
/* Block the current thread until it is enabled. */
static void block(int state) {
    int self = G.cur_thread;
    vn_thread &t = G.thr[self];
    t.state = state;
    if (in_coroutine) {
        if (vn_explore || !vn_enabled(self)) to_scheduler();
        /* the scheduler resumes us only when enabled */
    } else {
        /* direct mode: let coroutines run until we are enabled */
        int guard = 0;
        while (!vn_enabled(self)) {
            if (++guard > 200000) vn_raise(VN_HANG, "blocked: helpers spin forever");
            int ran = 0;
            for (int i = 0; i < VN_MAXTHR && !ran; ++i)
                if (i != self && G.thr[i].entry && vn_enabled(i)) { vn_run(i); ran = 1; }
            if (!ran) {
                int best = -1;
                for (int i = 0; i < VN_MAXTHR; ++i)
                    if ((i == self || G.thr[i].entry) && vn_can_wake(i)
                        && (best < 0 || G.thr[i].deadline < G.thr[best].deadline)) best = i;
                if (best < 0) { G.thr[self].state = VT_READY; load_thread(self); vn_raise(VN_DEADLOCK, "blocked forever"); }
                vn_wake(best);
                if (G.thr[self].state == VT_READY) break;
            }
        }
        load_thread(self);
    }
    G.thr[self].state = VT_READY;
}

static inline int is_shared(const void *addr) {
    uintptr_t a = (uintptr_t)addr;
    if (a >= SHM_BASE && a < SHM_BASE + VN_MAXSHM * SHM_SZ) return 1;
    if (vn_inproc_shared) {
        if (a >= ARENA_BASE && a < ARENA_BASE + VN_MAXPROC * ARENA_SZ) return 1;
        if (a >= (uintptr_t)__start_vnimg && a < (uintptr_t)__stop_vnimg) return 1;
    }
    return 0;
}
/* the registers and the whole stack of the running thread */
static __attribute__((noinline)) unsigned long stack_hash(char *top) {
    __builtin_unwind_init(); unsigned long h = 1469598103934665603UL;
    for (unsigned long *p = (unsigned long*)__builtin_frame_address(0) - 8; (char*)p < top; ++p) h = (h ^ *p) * 1099511628211UL;
    return h;
}
/* a thread spins if it reads the same address again and again and nothing else changes in it */
void vn_yield_point(const void *addr, int is_write) {
    if (!vn_explore || !in_coroutine) return;
    vn_thread &t = G.thr[G.cur_thread];
    t.state = VT_READY;
    if (is_write || addr != t.spin_addr) { t.spin_addr = is_write ? nullptr : addr; t.spin_cnt = 0; t.spin_hash = 0; }
    else { unsigned long h = stack_hash(stk(G.cur_thread) + STACK_SZ); if (h != t.spin_hash) { t.spin_hash = h; t.spin_cnt = 0; } else if (++t.spin_cnt >= 2) t.state = VT_SPIN; }
    to_scheduler();
    G.thr[G.cur_thread].state = VT_READY;
}
/* heap blocks: a header in front of 64-byte aligned chunks */
struct chunk { uint32_t magic; uint32_t size; /* payload capacity */ uint32_t req; uint32_t pad[13]; };
static_assert(sizeof(chunk) == 64, "chunk");
enum { CH_USED = 0xA110CA7E, CH_FREE = 0xF4EEF4EE };
int vn_heap_check = 0;
static void heap_check(uintptr_t v, size_t n) {     /* an access to the heap must be inside an allocated block */
    static chunk *hint; chunk *h = hint;
    if (h && v >= (uintptr_t)h + 64 && v + n <= (uintptr_t)h + 64 + h->req && h->magic == CH_USED) return;
    int pr = (v - ARENA_BASE) / ARENA_SZ; vn_proc &P = G.proc[pr]; char *a = arena(pr);
    for (size_t off = 0; off < P.heap_top;) { chunk *c = (chunk*)(a + off); uintptr_t b = (uintptr_t)c + 64;
        if (v >= b - 64 && v < b + c->size) { if (c->magic == CH_USED && v >= b && v + n <= b + c->req) { hint = c; return; }
            vn_raise(VN_HEAP, c->magic == CH_USED ? "access outside of an allocated block" : "access to freed memory"); }
        off += 64 + c->size; }
    vn_raise(VN_HEAP, "access to freed memory");
}
static inline void access_point(const void *addr, size_t n, int w) {
    if (vn_heap_check && in_impl && (uintptr_t)addr >= ARENA_BASE && (uintptr_t)addr < ARENA_BASE + VN_MAXPROC * ARENA_SZ) heap_check((uintptr_t)addr, n);
    if (!vn_explore || !in_coroutine) return;
    if (!is_shared(addr)) return;
    if (vn_access_hook) vn_access_hook(addr, n, w);
    vn_yield_point(addr, w);
}

/* ---------------------------------------------------------------- intercepted libc */
extern "C" {
#define CURP (G.proc[G.cur_proc])

/* time */
int vn_clock_gettime(clockid_t, struct timespec *ts) {
    G.now += vn_tick;
    ts->tv_sec = G.now / 1000000000LL; ts->tv_nsec = G.now % 1000000000LL; return 0;
}
time_t vn_time(time_t *t) { time_t v = G.now / 1000000000LL; if (t) *t = v; return v; }
int vn_usleep(unsigned us) {
    vn_thread &t = G.thr[G.cur_thread];
    if (in_coroutine) {
        t.deadline = G.now + (int64_t)us * 1000; t.state = VT_SLEEP; t.spin_cnt = 0;
        to_scheduler();
        G.thr[G.cur_thread].deadline = -1; G.thr[G.cur_thread].state = VT_READY;
    } else {
        G.now += (int64_t)us * 1000;
        int self = G.cur_thread;
        for (int i = 0; i < VN_MAXTHR; ++i) if (G.thr[i].entry && vn_enabled(i)) vn_run(i);
        load_thread(self);
        if (vn_sleep_hook) { vn_sleep_hook(); load_thread(self); }
    }
    return 0;
}
/* identity */
pid_t vn_getpid(void) { return CURP.pid; }
uid_t vn_getuid(void) { return 0; }
int vn_kill_sig(pid_t pid, int sig) {
    if (vn_kill_hook) vn_kill_hook(pid, sig);
    if (sig == 0) {
        for (int p = 0; p < VN_MAXPROC; ++p) if (G.proc[p].used && G.proc[p].pid == pid && G.proc[p].alive) return 0;
        errno = ESRCH; return -1;
    }
    return 0;
}
long vn_syscall(long n, ...) { return 100000 + G.cur_thread; }
int vn_gethostname(char *b, size_t n) { snprintf(b, n, "vnode"); return 0; }
long vn_sysconf(int) { return vn_sysconf_cpus; }
int vn_sched_getaffinity(pid_t, size_t n, cpu_set_t *s) { memset(s, 0, n); memcpy(s, CURP.affinity, n < 128 ? n : 128); return 0; }
int vn_sched_setaffinity(pid_t, size_t n, const cpu_set_t *s) { memcpy(CURP.affinity, s, n < 128 ? n : 128); return 0; }
int vn_sched_getcpu(void) {
    int c = CURP.curcpu; vn_thread &T = G.thr[G.cur_thread]; if (G.cur_thread < 0 || !T.affinity_set || (T.affinity[c / 64] >> (c % 64) & 1)) return c;
    for (int i = 0; i < 1024; ++i) if (T.affinity[i / 64] >> (i % 64) & 1) return i;
    return c;
}
char *vn_getenv(const char *name) {
    size_t n = strlen(name);
    for (int i = 0; i < VN_MAXENV; ++i) { char *e = CURP.env[i]; if (e[0] && !strncmp(e, name, n) && e[n] == '=') return e + n + 1; }
    return nullptr;
}
int vn_setenv_(const char *name, const char *value, int ow) {
    if (!ow && vn_getenv(name)) return 0;
    char tmp[192]; snprintf(tmp, sizeof tmp, "%s", value);
    vn_setenv(G.cur_proc, name, tmp); return 0;
}
pid_t vn_fork(void) { errno = EAGAIN; return -1; }
int vn_execvp(const char*, char *const[]) { return -1; }
char *vn_secure_getenv(const char *name) { return vn_getenv(name); }
void *vn_dlopen(const char*, int) { return nullptr; }
void *vn_dlsym(void*, const char*) { return nullptr; }
char *vn_dlerror(void) { return nullptr; }
void *vn_opendir(const char*) { errno = ENOENT; return nullptr; }
void *vn_readdir(void*) { return nullptr; }
int vn_closedir(void*) { return 0; }
int vn_ioctl(int, unsigned long, ...) { return -1; }
int vn_isatty(int) { return 0; }
int vn_backtrace(void **, int) { return 0; }
char **vn_backtrace_symbols(void *const *, int) { return nullptr; }
int vn_omp_get_max_threads(void) { return CURP.omp_threads > 0 ? CURP.omp_threads : 1; }

/* output */
static void outrec(const char *s, size_t n) {
    if (vn_capture && vn_outlen + n < sizeof vn_out) { memcpy(vn_out + vn_outlen, s, n); vn_outlen += n; vn_out[vn_outlen] = 0; }
    if (strstr(s, "DLB PANIC")) snprintf(vn_lastmsg, sizeof vn_lastmsg, "%.*s", (int)(n < 500 ? n : 500), s);
    if (getenv("VN_VERBOSE")) fwrite(s, 1, n, stderr);
}
/* virtual files: FILE* values returned by vn_fopen are indices */
struct vfile { int used; std::string path, mode, data; };
static vfile files[VN_MAXFILES];
static vfile *tofile(FILE *f) { uintptr_t v = (uintptr_t)f; if (v >= 0x1000 && v < 0x1000 + VN_MAXFILES) return &files[v - 0x1000]; return nullptr; }
static void fout(FILE *f, const char *s, size_t n) { vfile *v = tofile(f); if (v) v->data.append(s, n); else outrec(s, n); }
FILE *vn_fopen(const char *path, const char *mode) {
    if (!vn_file_hook || mode[0] == 'r') { errno = ENOENT; return nullptr; }
    for (int i = 0; i < VN_MAXFILES; ++i) if (!files[i].used) { files[i].used = 1; files[i].path = path; files[i].mode = mode; files[i].data.clear(); return (FILE*)(uintptr_t)(0x1000 + i); }
    return nullptr;
}
int vn_fclose(FILE *f) { vfile *v = tofile(f); if (v) { v->used = 0; if (vn_file_hook) vn_file_hook(v->path.c_str(), v->mode.c_str(), v->data.data(), v->data.size()); } return 0; }
char *vn_fgets(char*, int, FILE*) { return nullptr; }
int vn_vfprintf(FILE *f, const char *fmt, va_list ap) { char b[8192]; int n = vsnprintf(b, sizeof b, fmt, ap); if (n > 0) fout(f, b, n < (int)sizeof b ? n : sizeof b - 1); return n; }
int vn_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vn_vfprintf(f, fmt, ap); va_end(ap); return n; }
int vn_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vn_vfprintf(stdout, fmt, ap); va_end(ap); return n; }
int vn_puts(const char *s) { outrec(s, strlen(s)); outrec("\n", 1); return 0; }
int vn_putchar(int c) { char b[2] = {(char)c, 0}; outrec(b, 1); return c; }
int vn_fputs(const char *s, FILE *f) { fout(f, s, strlen(s)); return 0; }
int vn_fputc(int c, FILE *f) { char b[2] = {(char)c, 0}; fout(f, b, 1); return c; }
size_t vn_fwrite(const void *p, size_t s, size_t n, FILE *f) { fout(f, (const char*)p, s*n); return n; }
int vn_fflush(FILE*) { return 0; }
void vn_abort(void) { vn_raise(VN_ABORT, vn_lastmsg[0] ? vn_lastmsg : "abort"); for(;;); }
void vn_exit(int) { vn_raise(VN_ABORT, "exit"); for(;;); }

/* heap: 64-byte aligned chunks, header in front; deterministic, checked */
static void *heap_alloc(size_t n) {
    vn_proc &P = CURP; char *a = arena(G.cur_proc);
    size_t cap = (n + 8 + 63) & ~(size_t)63; if (!cap) cap = 64;
    size_t off = 0;
    while (off < P.heap_top) {
        chunk *c = (chunk*)(a + off);
        if (c->magic == CH_FREE && c->size >= cap) {
            if (c->size >= cap + 128) { chunk *d = (chunk*)(a + off + 64 + cap); memset(d, 0, 64); d->magic = CH_FREE; d->size = c->size - cap - 64; c->size = cap; }
            c->magic = CH_USED; c->req = n; goto out;
        }
        if (c->magic != CH_FREE && c->magic != CH_USED) vn_raise(VN_HEAP, "heap corrupted");
        off += 64 + c->size;
    }
    if (P.heap_top + 64 + cap > ARENA_SZ) { return nullptr; }
    { chunk *c = (chunk*)(a + P.heap_top); memset(c, 0, 64); c->magic = CH_USED; c->size = cap; c->req = n; off = P.heap_top; P.heap_top += 64 + cap; }
out:
    { chunk *c = (chunk*)(a + off); char *p = a + off + 64; memset(p, 0xA5, c->size); memset(p + n, 0xFB, c->size - n); P.heap_allocs++; return p; }
}
static void heap_free(void *p) {
    if (!p) return;
    uintptr_t v = (uintptr_t)p;
    if (v < ARENA_BASE || v >= ARENA_BASE + VN_MAXPROC*ARENA_SZ) { free(p); return; } /* libc-internal allocation */
    int pr = (v - ARENA_BASE) / ARENA_SZ; vn_proc &P = G.proc[pr]; char *a = arena(pr);
    if ((v & 63) || (v - (uintptr_t)a) < 64 || (v - (uintptr_t)a) >= P.heap_top) vn_raise(VN_HEAP, "invalid free");
    chunk *c = (chunk*)((char*)p - 64);
    if (c->magic == CH_FREE) vn_raise(VN_HEAP, "double free");
    if (c->magic != CH_USED) vn_raise(VN_HEAP, "invalid free");
    for (size_t i = c->req; i < c->size; ++i) if (((unsigned char*)p)[i] != 0xFB) vn_raise(VN_HEAP, "heap buffer overflow");
    memset(p, 0xDD, c->size); c->magic = CH_FREE; c->req = 0; P.heap_allocs--;
    /* coalesce and trim */
    size_t off = 0; chunk *prev = nullptr; size_t prevoff = 0;
    while (off < P.heap_top) {
        chunk *d = (chunk*)(a + off); size_t next = off + 64 + d->size;
        if (prev && prev->magic == CH_FREE && d->magic == CH_FREE) { prev->size += 64 + d->size; memset(d, 0xDD, 64); off = next; continue; }
        prev = d; prevoff = off; off = next;
    }
    if (prev && prev->magic == CH_FREE) { memset(a + prevoff, 0, P.heap_top - prevoff); P.heap_top = prevoff; }
}
void *vn_malloc(size_t n) { return heap_alloc(n); }
void *vn_calloc(size_t a, size_t b) { void *p = heap_alloc(a*b); if (p) memset(p, 0, a*b); return p; }
void vn_free(void *p) { heap_free(p); }
void *vn_realloc(void *p, size_t n) {
    if (!p) return heap_alloc(n);
    if (!n) { heap_free(p); return nullptr; }
    chunk *c = (chunk*)((char*)p - 64); if (c->magic != CH_USED) vn_raise(VN_HEAP, "invalid realloc");
    void *q = heap_alloc(n); if (!q) return nullptr;
    memcpy(q, p, c->req < n ? c->req : n); heap_free(p); return q;
}
int vn_posix_memalign(void **out, size_t al, size_t n) { if (al > 64) return EINVAL; *out = heap_alloc(n); return *out ? 0 : ENOMEM; }
void *vn_aligned_alloc(size_t, size_t n) { return heap_alloc(n); }
char *vn_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char*)heap_alloc(n); if (p) memcpy(p, s, n); return p; }
char *vn_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char*)heap_alloc(n+1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int vn_vasprintf(char **out, const char *fmt, va_list ap) { char b[8192]; int n = vsnprintf(b, sizeof b, fmt, ap); *out = (char*)heap_alloc(n+1); if (!*out) return -1; memcpy(*out, b, n+1); return n; }
int vn_asprintf(char **out, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vn_vasprintf(out, fmt, ap); va_end(ap); return n; }
void *vn___sched_cpualloc(size_t n) { size_t sz = ((n + 63) / 64) * 8; return heap_alloc(sz); }
void vn___sched_cpufree(void *p) { heap_free(p); }

/* shared memory */
static int fdslot(int fd) { return fd >= 100 && fd < 132 ? G.fds[fd-100].slot - 1 : -1; }
int vn_shm_open(const char *name, int oflag, mode_t) {
    if (vn_explore && in_coroutine) vn_yield_point(nullptr, 1);
    int s = -1;
    for (int i = 0; i < VN_MAXSHM; ++i) if (G.shm[i].used && G.shm[i].linked && !strcmp(G.shm[i].name, name)) s = i;
    if (s >= 0 && (oflag & O_CREAT) && (oflag & O_EXCL)) { errno = EEXIST; return -1; }
    if (s < 0) {
        if (!(oflag & O_CREAT)) { errno = ENOENT; return -1; }
        for (int i = 0; i < VN_MAXSHM && s < 0; ++i) if (!G.shm[i].used) s = i;
        if (s < 0) vn_raise(VN_CAPACITY, "too many shm");
        memset(&G.shm[s], 0, sizeof(vn_shm));
        G.shm[s].used = 1; G.shm[s].linked = 1; snprintf(G.shm[s].name, sizeof G.shm[s].name, "%s", name);
    }
    for (int m = 0; m < 2; ++m) for (int i = 0; i < 32; ++i) if (!G.fds[i].slot || (m && G.fds[i].mapped)) { G.fds[i].slot = s + 1; G.fds[i].proc = G.cur_proc; G.fds[i].mapped = 0; G.shm[s].nmaps++; return 100 + i; }
    vn_raise(VN_CAPACITY, "fds"); return -1;
}
int vn_ftruncate(int fd, off_t n) {
    if (vn_explore && in_coroutine) vn_yield_point(nullptr, 1);
    int s = fdslot(fd); if (s < 0) { errno = EBADF; return -1; }
    if ((size_t)n > SHM_SZ) vn_raise(VN_CAPACITY, "shm too big");
    if ((size_t)n < G.shm[s].size) memset(shmaddr(s) + n, 0, G.shm[s].size - n);
    G.shm[s].size = n; return 0;
}
int vn_posix_fallocate(int fd, off_t off, off_t n) {
    if (vn_explore && in_coroutine) vn_yield_point(nullptr, 1);
    int s = fdslot(fd); if (s < 0) return EBADF;
    if ((size_t)(off + n) > SHM_SZ) vn_raise(VN_CAPACITY, "shm too big");
    if ((size_t)(off + n) > G.shm[s].size) G.shm[s].size = off + n; return 0;
}
int vn_fstat(int fd, struct stat *st) {
    if (vn_explore && in_coroutine) vn_yield_point(nullptr, 0);
    int s = fdslot(fd); if (s < 0) return fstat(fd, st);
    memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0600; st->st_size = G.shm[s].size; st->st_nlink = G.shm[s].linked; return 0;
}
int vn_close(int fd) { int s = fdslot(fd); if (s < 0) { errno = EBADF; return -1; } bool m = G.fds[fd-100].mapped; memset(&G.fds[fd-100], 0, sizeof G.fds[0]); if (!m) G.shm[s].nmaps--; shm_gc(s); return 0; }
void *vn_mmap(void *, size_t n, int, int, int fd, off_t) {
    if (vn_explore && in_coroutine) vn_yield_point(nullptr, 1);
    int s = fdslot(fd); if (s < 0) { errno = EBADF; return MAP_FAILED; }
    if (G.fds[fd-100].mapped) G.shm[s].nmaps++; else G.fds[fd-100].mapped = 1;
    return shmaddr(s);
}
int vn_munmap(void *addr, size_t) {
    if (vn_explore && in_coroutine) vn_yield_point(nullptr, 1);
    uintptr_t v = (uintptr_t)addr; if (v < SHM_BASE || (v - SHM_BASE) % SHM_SZ) { errno = EINVAL; return -1; }
    int s = (v - SHM_BASE) / SHM_SZ; if (s >= VN_MAXSHM || !G.shm[s].used) { errno = EINVAL; return -1; }
    for (auto &f : G.fds) if (f.slot == s + 1 && f.mapped && f.proc == G.cur_proc) memset(&f, 0, sizeof f);   /* descriptors left open do not matter any more */
    G.shm[s].nmaps--; shm_gc(s); return 0;
}
int vn_shm_unlink(const char *name) {
    if (vn_explore && in_coroutine) vn_yield_point(nullptr, 1);
    for (int i = 0; i < VN_MAXSHM; ++i) if (G.shm[i].used && G.shm[i].linked && !strcmp(G.shm[i].name, name)) { G.shm[i].linked = 0; shm_gc(i); return 0; }
    errno = ENOENT; return -1;
}
int vn_access(const char *path, int) {
    if (vn_explore && in_coroutine) vn_yield_point(nullptr, 0);
    const char *pre = "/dev/shm"; size_t n = strlen(pre);
    if (strncmp(path, pre, n)) { errno = ENOENT; return -1; }
    for (int i = 0; i < VN_MAXSHM; ++i) if (G.shm[i].used && G.shm[i].linked && !strcmp(G.shm[i].name, path + n)) return 0;
    errno = ENOENT; return -1;
}

/* threads */
int vn_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void*), void *arg) {
    int id = new_thread(G.cur_proc, fn, arg); *t = (pthread_t)(id + 1);
    if (vn_explore && in_coroutine) vn_yield_point(nullptr, 1);
    return 0;
}
int vn_pthread_join(pthread_t t, void **ret) {
    int id = (int)t - 1; if (id < 0 || id >= VN_MAXTHR || G.thr[id].state == VT_FREE) return ESRCH;
    G.thr[G.cur_thread].join_tid = id;
    block(VT_JOIN);
    if (ret) *ret = G.thr[id].retval;
    G.proc[G.thr[id].proc].nthreads--;
    memset(&G.thr[id], 0, sizeof(vn_thread));
    return 0;
}
/* thread-specific destructors are not run: virtual threads never exit while the process lives */
int vn_pthread_once(pthread_once_t *o, void (*f)(void)) { if (*o == PTHREAD_ONCE_INIT) { *o = 2; f(); } return 0; }
int vn_pthread_key_create(pthread_key_t *k, void (*)(void*)) { *k = 0; return 0; }
int vn_pthread_key_delete(pthread_key_t) { return 0; }
int vn_pthread_setspecific(pthread_key_t, const void*) { return 0; }
void *vn_pthread_getspecific(pthread_key_t) { return 0; }
int vn_pthread_detach(pthread_t t) { G.thr[(int)t-1].detached = 1; return 0; }
pthread_t vn_pthread_self(void) { return (pthread_t)(G.cur_thread + 1); }
int vn_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *s) { vn_thread &T = G.thr[(int)t-1]; T.affinity_set = 1; memcpy(T.affinity, s, n < 128 ? n : 128); return 0; }
int vn_pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *s) { vn_thread &T = G.thr[(int)t-1]; memcpy(s, T.affinity_set ? T.affinity : CURP.affinity, n < 128 ? n : 128); return 0; }

static inline int in_shm(const void *p) { uintptr_t a = (uintptr_t)p; return a >= SHM_BASE && a < SHM_BASE + VN_MAXSHM * SHM_SZ; }
static void took(vmutex *v) { v->owner = G.cur_thread + 1; if (in_shm(v)) G.thr[G.cur_thread].nheld++; }
static void gave(vmutex *v) { v->owner = 0; if (in_shm(v)) G.thr[G.cur_thread].nheld--; }
int vn_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { vmutex *v = (vmutex*)m; memset(m, 0, sizeof *m); v->init = VMAGIC; return 0; }
static void mchk(vmutex *v, const char *w) { if (v->init == VDEAD) vn_raise(VN_SYNC, w); }
int vn_pthread_mutex_destroy(pthread_mutex_t *m) { vmutex *v = (vmutex*)m; if (v->owner) return EBUSY; memset(m, 0, sizeof *m); v->init = VDEAD; return 0; }
int vn_pthread_mutex_lock(pthread_mutex_t *m) {
    vmutex *v = (vmutex*)m;
    if (vn_explore && in_coroutine) vn_yield_point(m, 1);
    mchk(v, "lock of a destroyed mutex");
    if (v->owner) { vn_thread &t = G.thr[G.cur_thread]; t.waddr = m; t.deadline = -1; t.timedout = 0; while (v->owner) block(VT_MUTEX); }
    took(v); return 0;
}
int vn_pthread_mutex_trylock(pthread_mutex_t *m) {
    vmutex *v = (vmutex*)m;
    if (vn_explore && in_coroutine) vn_yield_point(m, 1);
    mchk(v, "trylock of a destroyed mutex");
    if (v->owner) return EBUSY;
    took(v); return 0;
}
int vn_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
    vmutex *v = (vmutex*)m;
    if (vn_explore && in_coroutine) vn_yield_point(m, 1);
    mchk(v, "lock of a destroyed mutex");
    int64_t dl = (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec;
    vn_thread &t = G.thr[G.cur_thread]; t.timedout = 0;
    while (v->owner) {
        t.waddr = m; t.deadline = dl;
        block(VT_MUTEX);
        if (t.timedout && v->owner) { t.timedout = 0; t.deadline = -1; return ETIMEDOUT; }
    }
    t.timedout = 0; t.deadline = -1;
    took(v); return 0;
}
int vn_pthread_mutex_unlock(pthread_mutex_t *m) {
    vmutex *v = (vmutex*)m;
    if (vn_explore && in_coroutine) vn_yield_point(m, 1);
    mchk(v, "unlock of a destroyed mutex");
    if (v->owner != G.cur_thread + 1) vn_raise(VN_SYNC, "unlock of a mutex not owned");
    gave(v); return 0;
}
int vn_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); ((vcond*)c)->init = VMAGIC; return 0; }
int vn_pthread_cond_destroy(pthread_cond_t *c) { memset(c, 0, sizeof *c); ((vcond*)c)->init = VDEAD; return 0; }
int vn_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    vmutex *v = (vmutex*)m; vn_thread &t = G.thr[G.cur_thread];
    if (((vcond*)c)->init == VDEAD) vn_raise(VN_SYNC, "wait on a destroyed condition");
    if (v->owner != G.cur_thread + 1) vn_raise(VN_SYNC, "cond wait without the mutex");
    gave(v); t.waddr = c; t.mutex2 = m; t.cond_sig = 0;
    block(VT_COND);
    t.cond_sig = 0; t.mutex2 = nullptr;
    while (v->owner) { t.waddr = m; t.deadline = -1; block(VT_MUTEX); }
    took(v);
    return 0;
}
static int csig(pthread_cond_t *c, int all) {
    if (vn_explore && in_coroutine) vn_yield_point(c, 1);
    if (((vcond*)c)->init == VDEAD) vn_raise(VN_SYNC, "signal of a destroyed condition");
    for (int i = 0; i < VN_MAXTHR; ++i)
        if (G.thr[i].state == VT_COND && G.thr[i].waddr == c && !G.thr[i].cond_sig) { G.thr[i].cond_sig = 1; if (!all) break; }
    return 0;
}
int vn_pthread_cond_signal(pthread_cond_t *c) { return csig(c, 0); }
int vn_pthread_cond_broadcast(pthread_cond_t *c) { return csig(c, 1); }
int vn_pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *, unsigned n) {
    vbarrier *v = (vbarrier*)b; if (!n) return EINVAL; int g = v->gen;
    memset(b, 0, sizeof *b); v->init = VMAGIC; v->count = n; v->gen = g & 1; return 0;
}
int vn_pthread_barrier_destroy(pthread_barrier_t *b) {
    vbarrier *v = (vbarrier*)b;
    if (vn_explore && in_coroutine) vn_yield_point(b, 1);
    if (v->arrived) vn_raise(VN_SYNC, "destroy of a barrier with waiters");
    if (v->init == VDEAD) vn_raise(VN_SYNC, "destroy of a destroyed barrier");
    v->init = VDEAD; return 0;
}
int vn_pthread_barrier_wait(pthread_barrier_t *b) {
    vbarrier *v = (vbarrier*)b;
    if (vn_explore && in_coroutine) vn_yield_point(b, 1);
    if (v->init != VMAGIC) vn_raise(VN_SYNC, "wait on an uninitialised barrier");
    if (++v->arrived >= v->count) { v->arrived = 0; v->gen ^= 1; return PTHREAD_BARRIER_SERIAL_THREAD; }
    vn_thread &t = G.thr[G.cur_thread]; t.waddr = b; t.barrier_gen = v->gen; t.timedout = 0; t.deadline = -1;
    block(VT_BARRIER);
    return 0;
}
int vn_pthread_rwlock_init(pthread_rwlock_t *r, const pthread_rwlockattr_t *) { memset(r, 0, sizeof *r); ((vrwlock*)r)->init = VMAGIC; return 0; }
int vn_pthread_rwlock_destroy(pthread_rwlock_t *r) { memset(r, 0, sizeof *r); ((vrwlock*)r)->init = VDEAD; return 0; }
static void rchk(vrwlock *v) { if (v->init == VDEAD) vn_raise(VN_SYNC, "use of a destroyed rwlock"); }
int vn_pthread_rwlock_rdlock(pthread_rwlock_t *r) {
    vrwlock *v = (vrwlock*)r; if (vn_explore && in_coroutine) vn_yield_point(r, 1); rchk(v);
    vn_thread &t = G.thr[G.cur_thread]; t.waddr = r; t.deadline = -1; t.timedout = 0;
    while (v->writer) block(VT_RDLOCK);
    v->readers++; return 0;
}
int vn_pthread_rwlock_wrlock(pthread_rwlock_t *r) {
    vrwlock *v = (vrwlock*)r; if (vn_explore && in_coroutine) vn_yield_point(r, 1); rchk(v);
    vn_thread &t = G.thr[G.cur_thread]; t.waddr = r; t.deadline = -1; t.timedout = 0;
    while (v->writer || v->readers) block(VT_WRLOCK);
    v->writer = G.cur_thread + 1; return 0;
}
int vn_pthread_rwlock_timedwrlock(pthread_rwlock_t *r, const struct timespec *ts) {
    vrwlock *v = (vrwlock*)r; if (vn_explore && in_coroutine) vn_yield_point(r, 1); rchk(v);
    vn_thread &t = G.thr[G.cur_thread]; t.timedout = 0;
    int64_t dl = (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec;
    while (v->writer || v->readers) { t.waddr = r; t.deadline = dl; block(VT_WRLOCK);
        if (t.timedout && (v->writer || v->readers)) { t.timedout = 0; t.deadline = -1; return ETIMEDOUT; } }
    t.timedout = 0; t.deadline = -1;
    v->writer = G.cur_thread + 1; return 0;
}
int vn_pthread_rwlock_trywrlock(pthread_rwlock_t *r) {
    vrwlock *v = (vrwlock*)r; if (vn_explore && in_coroutine) vn_yield_point(r, 1); rchk(v);
    if (v->writer || v->readers) return EBUSY;
    v->writer = G.cur_thread + 1; return 0;
}
int vn_pthread_rwlock_tryrdlock(pthread_rwlock_t *r) {
    vrwlock *v = (vrwlock*)r; if (vn_explore && in_coroutine) vn_yield_point(r, 1); rchk(v);
    if (v->writer) return EBUSY;
    v->readers++; return 0;
}
int vn_pthread_rwlock_unlock(pthread_rwlock_t *r) {
    vrwlock *v = (vrwlock*)r; if (vn_explore && in_coroutine) vn_yield_point(r, 1); rchk(v);
    if (v->writer == G.cur_thread + 1) v->writer = 0;
    else if (v->readers > 0) v->readers--;
    else vn_raise(VN_SYNC, "unlock of a rwlock not held");
    return 0;
}

/* ------------------------------------------------------ -fsanitize=thread runtime */
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define RW(n) \
 void __tsan_read##n(void *a) { access_point(a, n, 0); } void __tsan_write##n(void *a) { access_point(a, n, 1); } \
 void __tsan_unaligned_read##n(void *a) { access_point(a, n, 0); } void __tsan_unaligned_write##n(void *a) { access_point(a, n, 1); } \
 void __tsan_volatile_read##n(void *a) { access_point(a, n, 0); } void __tsan_volatile_write##n(void *a) { access_point(a, n, 1); } \
 void __tsan_unaligned_volatile_read##n(void *a) { access_point(a, n, 0); } void __tsan_unaligned_volatile_write##n(void *a) { access_point(a, n, 1); } \
 void __tsan_read_write##n(void *a) { access_point(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access_point(a, n, 0); }
void __tsan_write_range(void *a, size_t n) { access_point(a, n, 1); }
#define AT(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T *a, int) { access_point((void*)a, sizeof(T), 0); return *a; } \
 void __tsan_atomic##bits##_store(volatile T *a, T v, int) { access_point((void*)a, sizeof(T), 1); *a = v; } \
 T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { access_point((void*)a, sizeof(T), 1); T o = *a; *a = v; return o; } \
 T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { access_point((void*)a, sizeof(T), 1); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { access_point((void*)a, sizeof(T), 1); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { access_point((void*)a, sizeof(T), 1); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { access_point((void*)a, sizeof(T), 1); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { access_point((void*)a, sizeof(T), 1); T o = *a; *a = o ^ v; return o; } \
 T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { access_point((void*)a, sizeof(T), 1); T o = *a; *a = ~(o & v); return o; } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access_point((void*)a, sizeof(T), 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access_point((void*)a, sizeof(T), 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access_point((void*)a, sizeof(T), 1); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {
    if (vn_explore && in_coroutine) { vn_thread &t = G.thr[G.cur_thread]; (void)t; }
}
void __tsan_atomic_signal_fence(int) {}
void *vn_memcpy(void *d, const void *s, size_t n) { if (n) { access_point(s, n, 0); access_point(d, n, 1); } return memcpy(d, s, n); }
void *vn_memmove(void *d, const void *s, size_t n) { if (n) { access_point(s, n, 0); access_point(d, n, 1); } return memmove(d, s, n); }
void *vn_memset(void *d, int c, size_t n) { if (n) access_point(d, n, 1); return memset(d, c, n); }
int vn_memcmp(const void *a, const void *b, size_t n) { if (n) { access_point(a, n, 0); access_point(b, n, 0); } return memcmp(a, b, n); }
} /* extern C */

/* ---------------------------------------------------------------- shm introspection */
int vn_shm_count(void) { int n = 0; for (int i = 0; i < VN_MAXSHM; ++i) n += G.shm[i].used && G.shm[i].linked; return n; }
int vn_shm_find(const char *name) { for (int i = 0; i < VN_MAXSHM; ++i) if (G.shm[i].used && G.shm[i].linked && !strcmp(G.shm[i].name, name)) return i; return -1; }
void *vn_shm_addr(int s) { return shmaddr(s); }

/* ---------------------------------------------------------------- boot / snapshots */
void vn_boot(void) {
    imgsz = __stop_vnimg - __start_vnimg; tlssz = __stop_vntls - __start_vntls;
    if (imgsz > IMG_SZ || tlssz > TLS_SZ) { fprintf(stderr, "vn: image too big %zu %zu\n", imgsz, tlssz); _exit(3); }
    pristine_img.assign(__start_vnimg, __stop_vnimg); pristine_tls.assign(__start_vntls, __stop_vntls);
    mapfix(ARENA_BASE, VN_MAXPROC * ARENA_SZ); mapfix(STACK_BASE, VN_MAXTHR * STACK_SZ);
    mapfix(SHM_BASE, VN_MAXSHM * SHM_SZ); mapfix(IMG_BASE, VN_MAXPROC * IMG_SZ); mapfix(TLS_BASE, VN_MAXTHR * TLS_SZ);
    stack_t ss; ss.ss_sp = mmap(0, 1<<16, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); ss.ss_size = 1<<16; ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_segv; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
    sa.sa_handler = on_prof; sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
    struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_PROF, &it, nullptr);
    vn_reset();
}
static const int64_t S0 = 0x5A5A5A5A;
void vn_reset(void) {
    for (int i = 0; i < VN_MAXSHM; ++i) if (G.shm[i].used) memset(shmaddr(i), 0, G.shm[i].size);
    for (int i = 0; i < VN_MAXPROC; ++i) if (G.proc[i].used) memset(arena(i), 0, G.proc[i].heap_top);
    memset(&G, 0, sizeof G); G.cur_proc = G.cur_thread = -1;
    G.now = (S0 + 1) * 1000000000LL;
    if (imgsz) { memcpy(__start_vnimg, pristine_img.data(), imgsz); memcpy(__start_vntls, pristine_tls.data(), tlssz); }
    vn_outlen = 0; vn_lastmsg[0] = 0;
}
struct ext { char *p; size_t n; };
static int extents(ext *e) {
    int n = 0;
    e[n++] = { (char*)&G, sizeof G };
    if (vn_user_size) e[n++] = { (char*)vn_user_ptr, vn_user_size };
    for (int p = 0; p < VN_MAXPROC; ++p) if (G.proc[p].used && G.proc[p].alive) {
        e[n++] = { img(p), imgsz };
        if (G.proc[p].heap_top) e[n++] = { arena(p), G.proc[p].heap_top };
    }
    for (int t = 0; t < VN_MAXTHR; ++t) if (G.thr[t].state != VT_FREE && G.thr[t].state != VT_DEAD) {
        e[n++] = { tls(t), tlssz };
        if (G.thr[t].entry && G.thr[t].started) { char *top = stk(t) + STACK_SZ; e[n++] = { (char*)G.thr[t].sp, (size_t)(top - (char*)G.thr[t].sp) }; }
    }
    for (int s = 0; s < VN_MAXSHM; ++s) if (G.shm[s].used && G.shm[s].size) e[n++] = { shmaddr(s), G.shm[s].size };
    return n;
}
size_t vn_world_bytes(void) { vn_leave(); ext e[64]; int n = extents(e); size_t t = 0; for (int i = 0; i < n; ++i) t += e[i].n; return t; }
static inline bool zero64(const void *p) {
    const __m128i *q = (const __m128i*)p;
    __m128i a = _mm_or_si128(_mm_or_si128(_mm_loadu_si128(q), _mm_loadu_si128(q + 1)), _mm_or_si128(_mm_loadu_si128(q + 2), _mm_loadu_si128(q + 3)));
    return _mm_movemask_epi8(_mm_cmpeq_epi8(a, _mm_setzero_si128())) == 0xffff;
}
int vn_keep_durations = 0;
void vn_canon_time(void) {
    vn_leave();
    ext e[64]; int n = extents(e);
    static std::vector<int64_t*> secs, nss; static std::vector<int64_t> vals;
    secs.clear(); nss.clear(); vals.clear();
    const int64_t lo = S0, hi = S0 + (1 << 20), B = 1000000000LL;
    if (vn_keep_durations) {        /* shift every absolute time by the same amount */
        const int64_t d = (S0 + (1 << 10)) * B - G.now;
        for (int i = 1; i < n; ++i) {
            int64_t *w = (int64_t*)(((uintptr_t)e[i].p + 7) & ~7ULL); int64_t *end = (int64_t*)((uintptr_t)(e[i].p + e[i].n) & ~7ULL);
            for (; w < end; ++w) {
                while (w + 8 <= end && zero64(w)) w += 8;
                if (w >= end) break;
                if (*w >= lo * B && *w < hi * B) *w += d;
            }
        }
        G.now += d;
        return;
    }
    for (int i = 1; i < n; ++i) {
        int64_t *w = (int64_t*)(((uintptr_t)e[i].p + 7) & ~7ULL); int64_t *end = (int64_t*)((uintptr_t)(e[i].p + e[i].n) & ~7ULL);
        for (; w < end; ++w) {
            while (w + 8 <= end && zero64(w)) w += 8;
            if (w >= end) break;
            int64_t v = *w;
            if (v >= lo && v < hi) { secs.push_back(w); vals.push_back(v); }
            else if (v >= lo * B && v < hi * B) { nss.push_back(w); vals.push_back(v / B); }
        }
    }
    std::sort(vals.begin(), vals.end()); vals.erase(std::unique(vals.begin(), vals.end()), vals.end());
    auto rank = [&](int64_t v) { return (int64_t)(std::lower_bound(vals.begin(), vals.end(), v) - vals.begin()); };
    for (auto w : secs) *w = S0 + 1 + rank(*w);
    for (auto w : nss) { int64_t v = *w; *w = (S0 + 1 + rank(v / B)) * B + v % B; }
    G.now = (S0 + 1 + (int64_t)vals.size()) * B;
}
static inline uint64_t mix(uint64_t h, uint64_t k) { h ^= k; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 29; return h; }
void vn_hash(uint64_t out[2]) {
    vn_leave();
    ext e[64]; int n = extents(e);
    uint64_t a = 0x243F6A8885A308D3ULL, b = 0x13198A2E03707344ULL;
    for (int i = 0; i < n; ++i) {
        const char *p = e[i].p; size_t len = e[i].n;
        a = mix(a, len); b = mix(b, len + 77);
        size_t pos = 0;
        for (; len >= 64; len -= 64, p += 64, pos += 64) {
            if (zero64(p)) continue;
            a = mix(a, pos); uint64_t w[8]; memcpy(w, p, 64);
            uint64_t c = a ^ 0xA4093822299F31D0ULL, d = b ^ 0x082EFA98EC4E6C89ULL;
            for (int k = 0; k < 8; k += 2) { a = mix(a, w[k]); b = mix(b, w[k + 1]); c = mix(c, w[k + 1]); d = mix(d, w[k]); }
            a = mix(a, d); b = mix(b, c);
        }
        for (; len >= 8; len -= 8, p += 8) { uint64_t w; memcpy(&w, p, 8); a = mix(a, w); b = mix(b, w + 0x452821E638D01377ULL); b += a >> 7; }
        uint64_t w = 0; memcpy(&w, p, len); a = mix(a, w); b = mix(b, w ^ 0xBE5466CF34E90C6CULL);
    }
    out[0] = a ^ (a >> 32); out[1] = b ^ (b >> 31);
}
/* snapshot: [G raw][per extent: RLE of 8-byte words] */
void vn_save(struct vn_snap *s, int compress) {
    vn_leave();
    ext e[64]; int n = extents(e);
    static std::vector<unsigned char> out; out.clear();
    auto put = [&](const void *p, size_t len) { out.insert(out.end(), (const unsigned char*)p, (const unsigned char*)p + len); };
    if (!compress) { for (int i = 0; i < n; ++i) put(e[i].p, e[i].n); }
    else for (int i = 0; i < n; ++i) {
        /* runs: u16 repeat-count of one byte value word | u16 literal words */
        const char *p = e[i].p; size_t words = e[i].n / 8, k = 0;
        while (k < words) {
            uint64_t w0; memcpy(&w0, p + 8*k, 8);
            size_t r = 1; if (!w0) while (k + r + 8 <= words && r + 8 < 65535 && zero64(p + 8*(k+r))) r += 8;
            while (k + r < words && r < 65535 && !memcmp(p + 8*(k+r), &w0, 8)) ++r;
            if (r >= 3) { uint16_t h[2] = {(uint16_t)r, 0}; put(h, 4); put(&w0, 8); k += r; }
            else {
                size_t l = 0;
                while (k + l < words && l < 65535) {
                    if (k + l + 2 < words && !memcmp(p + 8*(k+l), p + 8*(k+l+1), 8) && !memcmp(p + 8*(k+l), p + 8*(k+l+2), 8)) break;
                    ++l;
                }
                uint16_t h[2] = {0, (uint16_t)l}; put(h, 4); put(p + 8*k, 8*l); k += l;
            }
        }
        put(p + words*8, e[i].n - words*8);
    }
    unsigned char flag = compress;
    s->len = out.size() + 1; s->buf = (unsigned char*)malloc(s->len); s->buf[0] = flag; memcpy(s->buf + 1, out.data(), out.size());
}
void vn_restore(const struct vn_snap *s) {
    /* wipe what the current world has beyond the restored one: shm memory must be zero when reused */
    vn_leave();
    size_t old_shm[VN_MAXSHM]; for (int i = 0; i < VN_MAXSHM; ++i) old_shm[i] = G.shm[i].used ? G.shm[i].size : 0;
    const unsigned char *b = s->buf; int compress = *b++;
    auto load = [&](char *p, size_t n) {
        if (!compress) { memcpy(p, b, n); b += n; return; }
        size_t words = n / 8, k = 0;
        while (k < words) {
            uint16_t h[2]; memcpy(h, b, 4); b += 4;
            if (h[0]) { uint64_t w; memcpy(&w, b, 8); b += 8; uint64_t *q = (uint64_t*)(p + 8*k);
                if (w == 0) memset(q, 0, 8*(size_t)h[0]); else for (int i = 0; i < h[0]; ++i) memcpy(q + i, &w, 8); k += h[0]; }
            else { memcpy(p + 8*k, b, 8*(size_t)h[1]); b += 8*(size_t)h[1]; k += h[1]; }
        }
        memcpy(p + words*8, b, n - words*8); b += n - words*8;
    };
    load((char*)&G, sizeof G);
    ext e[64]; int n = extents(e);
    for (int i = 1; i < n; ++i) load(e[i].p, e[i].n);
    for (int i = 0; i < VN_MAXSHM; ++i) { size_t cur = G.shm[i].used ? G.shm[i].size : 0; if (old_shm[i] > cur) memset(shmaddr(i) + cur, 0, old_shm[i] - cur); }
}
void vn_snap_free(struct vn_snap *s) { free(s->buf); s->buf = nullptr; }
