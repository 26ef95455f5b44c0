/* common helpers of the harnesses: API calls into a virtual process */
#ifndef HN_H
#define HN_H
#include "mc.h"
#include <sched.h>
extern "C" {
#include "apis/dlb.h"
#include "apis/dlb_drom.h"
#include "apis/dlb_stats.h"
#include "apis/dlb_sp.h"
#include "apis/dlb_talp.h"
void mu_testing_set_sys(unsigned, unsigned, unsigned);
}
typedef unsigned long Mask;     /* CPUs as bits */
static inline cpu_set_t to_set(Mask m) { cpu_set_t s; CPU_ZERO(&s); for (int i = 0; i < 64; ++i) if (m >> i & 1) CPU_SET(i, &s); return s; }
static inline Mask from_set(const cpu_set_t *s) { Mask m = 0; for (int i = 0; i < 64; ++i) if (CPU_ISSET(i, s)) m |= 1UL << i; return m; }
static inline int popc(Mask m) { return __builtin_popcountl(m); }
static inline std::string mstr(Mask m) { std::string s = "{"; bool f = true; for (int i = 0; i < 64; ++i) if (m >> i & 1) { if (!f) s += ","; s += std::to_string(i); f = false; } return s + "}"; }
static const char *exc_name[] = {"ok", "abort (DLB PANIC)", "deadlock", "memory fault", "hang", "heap corruption", "sync-object misuse", "capacity"};
struct hn_closure { const std::function<long()> *f; };
static long hn_tramp(long f, long, long, long) { return (*(const std::function<long()>*)f)(); }
/* call into virtual process; an engine exception is a violation unless *exc is given */
static inline long in_proc(int slot, const std::function<long()> &f, int *exc = nullptr) {
    long r = -9999; int e = vn_call(slot, hn_tramp, (long)&f, 0, 0, 0, &r);
    if (exc) *exc = e;
    else if (e) mc::bad(e == VN_CAPACITY ? "engine-capacity" : "crash", "implementation %s: %s", exc_name[e], vn_exc_msg);
    return r;
}
static inline long in_thread(int tid, const std::function<long()> &f, int *exc = nullptr) {
    long r = -9999; int e = vn_call_thread(tid, hn_tramp, (long)&f, 0, 0, 0, &r);
    if (exc) *exc = e;
    else if (e) mc::bad(e == VN_CAPACITY ? "engine-capacity" : "crash", "implementation %s: %s", exc_name[e], vn_exc_msg);
    return r;
}
#define IN(slot, expr) in_proc(slot, [&]() -> long { return (long)(expr); })
static inline void topo(int slot, int cpus, int cores, int nodes) { in_proc(slot, [&]() -> long { mu_testing_set_sys(cpus, cores, nodes); return 0; }); }
static inline const char *errname(long e) {
    switch (e) { case 2: return "NOUPDT"; case 1: return "NOTED"; case 0: return "SUCCESS"; case -1: return "ERR_UNKNOWN"; case -2: return "ERR_NOINIT"; case -3: return "ERR_INIT"; case -4: return "ERR_DISBLD"; case -5: return "ERR_NOSHMEM"; case -6: return "ERR_NOPROC"; case -7: return "ERR_PDIRTY"; case -8: return "ERR_PERM"; case -9: return "ERR_TIMEOUT"; case -10: return "ERR_NOCBK"; case -11: return "ERR_NOENT"; case -12: return "ERR_NOCOMP"; case -13: return "ERR_REQST"; case -14: return "ERR_NOMEM"; case -15: return "ERR_NOPOL"; case -16: return "ERR_NOTALP"; case -17: return "ERR_NOLEWI"; }
    static char b[32]; snprintf(b, 32, "code %ld", e); return b;
}
#endif
