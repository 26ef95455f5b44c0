/* threads of virtual processes running scripts of operations under the scheduler */
#ifndef SCHED_H
#define SCHED_H
#include "hn.h"
namespace sc {
typedef void (*OpFn)(int proc, int arg);
struct Step { OpFn f; int arg; const char *name; };
struct Thread { int proc; Step s[6]; int n; };
static Thread T[8]; static int nT;
static void *body(void *p) { Thread *t = (Thread*)p; for (int i = 0; i < t->n; ++i) t->s[i].f(t->proc, t->s[i].arg); return nullptr; }
static inline void clear() { nT = 0; }
static inline void thread(int proc, const std::vector<Step> &v) { Thread &t = T[nT++]; t.proc = proc; t.n = 0; for (auto &s : v) t.s[t.n++] = s; }
static inline void start() { for (int i = 0; i < nT; ++i) vn_thread_create_in(T[i].proc, body, &T[i]); }
static inline std::string name() { std::string r; for (int i = 0; i < nT; ++i) { r += (i ? " | P" : "P") + std::to_string(T[i].proc) + ":"; for (int k = 0; k < T[i].n; ++k) r += (k ? "," : "") + std::string(T[i].s[k].name); } return r; }
}
#endif
