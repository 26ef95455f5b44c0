/* Explicit-state exploration on top of VNODE.
 * A Harness enumerates jobs (configurations); each job is one exhaustive search:
 *   - explore_ops():       every sequence of operations up to a depth, states merged by full-state hash
 *   - explore_schedules(): every interleaving (preemption-bounded), wake-up order and crash point
 *   - enumerate():         the harness enumerates an input space itself, calling mc::eval() per case */
#ifndef MC_H
#define MC_H
#include "vn.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <functional>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

namespace mc {
struct Op { std::string name; std::function<bool()> enabled; std::function<void()> run; };

struct Job { std::string name; std::function<void()> body; int weight; };
/* probes: operations (by index) also tried from the states at the depth limit, without going on from there */
struct Limits { int depth = 6; long max_states = 2000000; std::vector<int> probes; };

extern std::vector<Job> jobs;                 /* filled by the harness' register function */
extern bool thorough; extern int level;     /* 0: shallow, 1: quick, 2+: thorough */
void job(const std::string &name, std::function<void()> body, int weight = 1);

/* report a violation of the property; sig identifies the specific failing input/call/history kind.
 * Only the first one of a transition counts. Never unwinds: safe in callbacks. */
void bad(const char *sig, const char *fmt, ...) __attribute__((format(printf,2,3)));
bool is_bad();
/* count of a covered, named outcome (for vacuity control) */
void outcome(const std::string &o);
/* number of oracle evaluations / inputs */
void eval(bool nontrivial = true, uint64_t key = 0);
void sample(const std::string &s);
/* for direct enumerations: abandon this case if bad() was called; case_desc identifies it for replay */
bool begin_case(const std::string &desc);
void end_case();
/* one of several independent searches of a job: starts from an empty world; run the body only if it returns true */
bool scenario(const std::string &name);
void note_bound(const std::string &b);

/* depth-bounded breadth-first search over operation sequences from the current world */
void explore_ops(const std::vector<Op> &ops, std::function<void()> invariant, Limits lim);
/* schedules: the coroutines (threads with entry) present in the current world are interleaved.
 * at_end: called when no thread can run any more; crash_procs: processes that may be killed. */
struct Sched { int preemptions = 2; int crashes = 0; std::vector<int> crash_procs; long max_states = 3000000; bool sleepers_free = false; bool may_die = false; int timeouts = 0; int wakes_max = 40;
   std::function<void()> at_step; std::function<void(bool deadlock)> at_end; std::function<void(int)> on_crash; };
void explore_schedules(const Sched &s);
std::string fmt(const char *f, ...) __attribute__((format(printf,1,2)));
}
void mc_register(void);                       /* harness entry: register jobs */
#endif
