/* small multi-process test driver: P processes, each executing functions on request */
#ifndef DEMO_H
#define DEMO_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sched.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <stdbool.h>
#include <time.h>
#include "apis/dlb.h"
#include "apis/dlb_drom.h"
#include "apis/dlb_stats.h"
#include "apis/dlb_talp.h"
#include "support/mask_utils.h"
static int d_rd[8], d_wr[8], d_n; static pid_t d_pid[8]; static char d_key[64];
struct d_shared { volatile unsigned long use[8]; volatile int nen[8], ndis[8]; volatile long v[64]; }; static struct d_shared *D;
static int d_me = -1;
typedef long (*d_fn)(long, long);
struct d_msg { d_fn f; long a, b; };
static void d_start(int n) {           /* call first, before any DLB call */
    D = mmap(0, sizeof *D, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    snprintf(d_key, sizeof d_key, "demo%d", (int)getpid()); d_n = n;
    for (int i = 0; i < n; ++i) {
        int q[2], r[2]; if (pipe(q) || pipe(r)) exit(9);
        pid_t p = fork();
        if (p == 0) { d_me = i; struct d_msg m; while (read(q[0], &m, sizeof m) == sizeof m) { long v = m.f(m.a, m.b); if (write(r[1], &v, sizeof v) != sizeof v) break; } _exit(0); }
        close(q[0]); close(r[1]); d_wr[i] = q[1]; d_rd[i] = r[0]; d_pid[i] = p;
    }
}
static void d_send(int i, d_fn f, long a, long b) { struct d_msg m = {f, a, b}; if (write(d_wr[i], &m, sizeof m) != sizeof m) exit(9); }
static long d_recv(int i) { long v = -7777; if (read(d_rd[i], &v, sizeof v) != sizeof v) { fprintf(stderr, "process %d died\n", i); return -7777; } return v; }
static long d_call(int i, d_fn f, long a, long b) { d_send(i, f, a, b); return d_recv(i); }
static void d_stop(void) { for (int i = 0; i < d_n; ++i) { close(d_wr[i]); kill(d_pid[i], SIGKILL); waitpid(d_pid[i], 0, 0); } char c[256]; snprintf(c, sizeof c, "rm -f /dev/shm/DLB_*_%s*", d_key); if (system(c)) {} }
static int d_fail;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "%s:%d: failed: %s\n", __FILE__, __LINE__, #c); d_fail = 1; } } while (0)
static int d_end(void) { d_stop(); return d_fail; }
static void d_ms(int ms) { struct timespec t = {ms / 1000, (ms % 1000) * 1000000L}; nanosleep(&t, 0); }
static inline cpu_set_t d_mask(unsigned long m) { cpu_set_t s; CPU_ZERO(&s); for (int i = 0; i < 64; ++i) if (m >> i & 1) CPU_SET(i, &s); return s; }
static inline unsigned long d_bits(const cpu_set_t *s) { unsigned long m = 0; for (int i = 0; i < 64; ++i) if (CPU_ISSET(i, s)) m |= 1UL << i; return m; }
static void d_en(int c, void *x) { D->use[d_me] |= 1UL << c; D->nen[d_me]++; }
static void d_dis(int c, void *x) { D->use[d_me] &= ~(1UL << c); D->ndis[d_me]++; }
void mu_testing_set_sys(unsigned, unsigned, unsigned);
static unsigned d_cpus = 4, d_cores = 4, d_nodes = 1;  static const char *d_args = "--lewi";
/* DLB_Init with the given process mask, with enable/disable callbacks recorded in D->use */
static long f_init(long mask, long args) {
    mu_testing_set_sys(d_cpus, d_cores, d_nodes); char b[512]; snprintf(b, sizeof b, "%s --quiet --shm-key=%s", args ? (const char*)args : d_args, d_key);
    cpu_set_t s = d_mask(mask); int r = DLB_Init(0, &s, b); if (r == 0) { D->use[d_me] = mask;
    DLB_CallbackSet(dlb_callback_enable_cpu, (dlb_callback_t)d_en, 0); DLB_CallbackSet(dlb_callback_disable_cpu, (dlb_callback_t)d_dis, 0); }
    return r; }
static long f_finalize(long a, long b) { return DLB_Finalize(); }
static long f_lend(long a, long b) { return DLB_Lend(); }
static long f_lendcpu(long c, long b) { return DLB_LendCpu(c); }
static long f_reclaim(long a, long b) { return DLB_Reclaim(); }
static long f_reclaimcpu(long c, long b) { return DLB_ReclaimCpu(c); }
static long f_borrow(long a, long b) { return DLB_Borrow(); }
static long f_borrowcpu(long c, long b) { return DLB_BorrowCpu(c); }
static long f_borrowcpus(long n, long b) { return DLB_BorrowCpus(n); }
static long f_acquirecpu(long c, long b) { return DLB_AcquireCpu(c); }
static long f_acquirecpus(long n, long b) { return DLB_AcquireCpus(n); }
static long f_acquirein(long n, long m) { cpu_set_t s = d_mask(m); return DLB_AcquireCpusInMask(n, &s); }
static long f_return(long a, long b) { return DLB_Return(); }
static long f_returncpu(long c, long b) { return DLB_ReturnCpu(c); }
static long f_disable(long a, long b) { return DLB_Disable(); }
static long f_enable(long a, long b) { return DLB_Enable(); }
static long f_setmax(long n, long b) { return DLB_SetMaxParallelism(n); }
static long f_check(long c, long b) { return DLB_CheckCpuAvailability(c); }
/* classic LeWI: number of threads in D->v[process] */
static void d_nt(int n, void *x) { D->v[d_me] = n; }
static long f_initc(long n, long args) {
    mu_testing_set_sys(d_cpus, d_cores, d_nodes); char b[512]; snprintf(b, sizeof b, "%s --quiet --shm-key=%s", args ? (const char*)args : d_args, d_key);
    int r = DLB_Init(n, 0, b); if (r == 0) { D->v[d_me] = n; DLB_CallbackSet(dlb_callback_set_num_threads, (dlb_callback_t)d_nt, 0); } return r; }
static long f_lendcpus(long n, long b) { return DLB_LendCpus(n); }
/* DROM: mask given by the last callback in D->use[process] */
static void d_spm(const cpu_set_t *m, void *x) { D->use[d_me] = d_bits(m); D->nen[d_me]++; }
static long f_initd(long mask, long args) {
    mu_testing_set_sys(d_cpus, d_cores, d_nodes); char b[512]; snprintf(b, sizeof b, "%s --quiet --shm-key=%s", args ? (const char*)args : d_args, d_key);
    cpu_set_t s = d_mask(mask); int r = DLB_Init(0, &s, b); if (r >= 0) { D->use[d_me] = mask;
    DLB_CallbackSet(dlb_callback_set_process_mask, (dlb_callback_t)d_spm, 0);
    if (strstr(b, "--lewi")) { DLB_CallbackSet(dlb_callback_enable_cpu, (dlb_callback_t)d_en, 0); DLB_CallbackSet(dlb_callback_disable_cpu, (dlb_callback_t)d_dis, 0); } }
    return r; }
static long f_attach(long a, long b) { mu_testing_set_sys(d_cpus, d_cores, d_nodes); char e[256]; snprintf(e, sizeof e, "--shm-key=%s", d_key); setenv("DLB_ARGS", e, 1); return DLB_DROM_Attach(); }
static long f_detach(long a, long b) { return DLB_DROM_Detach(); }
static long f_set(long pid, long mf) { cpu_set_t s = d_mask(mf & 0xffff); return DLB_DROM_SetProcessMask(pid, &s, mf >> 16); }   /* mask | flags << 16 */
static long f_get(long pid, long flags) { cpu_set_t s; int r = DLB_DROM_GetProcessMask(pid, &s, flags); return r < 0 ? r : (long)d_bits(&s); }
static long f_poll(long a, long b) { int n; cpu_set_t s; int r = DLB_PollDROM(&n, &s); return r < 0 ? r : r == DLB_SUCCESS ? (long)d_bits(&s) : 0; }
static long f_pollup(long a, long b) { return DLB_PollDROM_Update(); }
static long f_preinit(long pid, long mf) { cpu_set_t s = d_mask(mf & 0xffff); char **e = NULL; return DLB_DROM_PreInit(pid, &s, mf >> 16, 0); (void)e; }
static long f_postfin(long pid, long flags) { return DLB_DROM_PostFinalize(pid, flags); }
static long f_recover(long pid, long b) { return DLB_DROM_RecoverStolenCpus(pid); }
#define C0(p, f) d_call(p, f, 0, 0)
#define C1(p, f, a) d_call(p, f, (long)(a), 0)
#define C2(p, f, a, b) d_call(p, f, (long)(a), (long)(b))
#endif
