/* TALP with several threads: every interleaving, with a bounded number of preemptions, of threads that register, start
 * and stop regions, make MPI calls and join the OpenMP runtime. Every heap access must be to allocated memory. */
#include "sched.h"
using mc::bad; using mc::fmt; using namespace sc;
extern "C" {
#include "LB_numThreads/omp-tools.h"
long shim_into(long), shim_out(long);
ompt_start_tool_result_t *ompt_start_tool(unsigned, const char*);
void shim_thread(int); }
static void *cbs[64]; static int set_cb(int ev, void *f) { if (ev < 64) cbs[ev] = f; return ompt_set_always; }
static ompt_interface_fn_t lookup(const char *n) { return !strcmp(n, "ompt_set_callback") ? (ompt_interface_fn_t)set_cb : nullptr; }
enum { MT = 4 };
static struct User { dlb_monitor_t *h[2][MT]; dlb_monitor_t *r[4]; int nstart[4], nstop[4], calls, joined, err, nreg[2], busy; } U;
/* the clock moves by 1 ns at every reading and by JUMP before an operation made while no other thread is inside one:
 * the times measured differ from those of the regions by the few ns that pass inside the operations (SLACK) */
enum { JUMP = 1000, SLACK = 200 };
struct Op { Op() { if (!U.busy) G.now += JUMP; U.busy++; } ~Op() { U.busy--; } };
static int self() { for (int i = 0; i < nT; ++i) if (G.thr[G.cur_thread].arg == &T[i]) return i; return MT - 1; }
static int opens[4];      /* regions open when the threads start */
static void o_reg(int, int w) { Op op; char nm[24]; snprintf(nm, 24, w ? "New region" : "Fresh"); dlb_monitor_t *m = DLB_MonitoringRegionRegister(nm); U.h[w][self()] = m; U.nreg[w]++; }
static void o_regstart(int p, int w) { o_reg(p, w); dlb_monitor_t *m = U.h[w][self()]; if (DLB_MonitoringRegionStart(m) == DLB_SUCCESS) DLB_MonitoringRegionStop(m); }
static void o_start(int, int r) { Op op; int e = DLB_MonitoringRegionStart(U.r[r]); if (e == DLB_SUCCESS) U.nstart[r]++; else if (e != DLB_NOUPDT) U.err = e; }
static void o_stop(int, int r) { Op op; int e = DLB_MonitoringRegionStop(U.r[r]); if (e == DLB_SUCCESS) U.nstop[r]++; else if (e != DLB_NOUPDT) U.err = e; }
static void o_reset(int, int r) { Op op; DLB_MonitoringRegionReset(U.r[r]); }
static void o_update(int, int) { Op op; DLB_MonitoringRegionsUpdate(); }
static void o_mpi(int, int) { Op op; shim_into(0); shim_out(0); U.calls++; }
static void o_begin(int, int) { Op op; ompt_data_t d; d.value = 0; ((ompt_callback_thread_begin_t)cbs[ompt_callback_thread_begin])(ompt_thread_worker, &d); U.joined++; }
static Step Reg{o_reg, 0, "Register(new)"}, Reg2{o_reg, 1, "Register(other)"}, RegS{o_regstart, 0, "Register+Start+Stop(new)"}, StA{o_start, 0, "Start(A)"}, SpA{o_stop, 0, "Stop(A)"}, StB{o_start, 1, "Start(B)"}, SpB{o_stop, 1, "Stop(B)"}, RsA{o_reset, 0, "Reset(A)"}, Upd{o_update, 0, "Update"}, Mpi{o_mpi, 0, "MPI"}, Beg{o_begin, 0, "thread begin"};
static bool omp, warm; static int np;
enum { ALL = 2 };       /* region open from before the threads until after them */
static int64_t tot(const dlb_monitor_t *m) { return m->useful_time + m->mpi_time + m->omp_load_imbalance_time + m->omp_scheduling_time + m->omp_serialization_time; }
static void at_end(bool dead) {
    if (dead) { bad("deadlock", "the threads are blocked for ever"); return; }
    if (U.err) { bad("result", "an operation returned %s", errname(U.err)); return; }
    for (int w = 0; w < 2; ++w) for (int i = 0; i < nT; ++i) for (int j = 0; j < i; ++j) if (U.h[w][i] && U.h[w][j] && U.h[w][i] != U.h[w][j]) { bad("register", "two threads registered the same region and got different ones"); return; }
    for (int w = 0; w < 2; ++w) if (U.nreg[w]) { int i = 0; while (!U.h[w][i]) ++i; dlb_monitor_t *m = (dlb_monitor_t*)IN(0, DLB_MonitoringRegionRegister(w ? "New region" : "Fresh")); if (mc::is_bad()) return; if (m != U.h[w][i]) { bad("register", "a registered region was lost"); return; } }
    for (int r = 0; r < 3; ++r) { long e = IN(0, DLB_MonitoringRegionStop(U.r[r])); if (mc::is_bad()) return; if (e == DLB_SUCCESS) U.nstop[r]++; e = IN(0, DLB_MonitoringRegionStop(U.r[r])); if (mc::is_bad()) return; if (e != DLB_NOUPDT) { bad("stop", "a stopped region can be stopped again"); return; } }
    bool reset = U.r[0]->num_resets > 0;
    for (int r = 0; r < 3; ++r) if (!(r == 0 && reset)) {
        if (U.nstart[r] != U.nstop[r]) bad("start-stop", "region %d was started %d times and stopped %d times", r, U.nstart[r], U.nstop[r]);
        else if (U.r[r]->num_measurements != U.nstop[r]) bad("start-stop", "region %d: num_measurements is %d, was stopped %d times", r, U.r[r]->num_measurements, U.nstop[r]);
    }
    if (mc::is_bad()) return;
    const dlb_monitor_t *m = U.r[ALL];
    if (m->num_mpi_calls != U.calls) bad("calls", "%ld MPI calls counted, %d made", (long)m->num_mpi_calls, U.calls);
    int n = 1 + (warm || omp ? (omp ? U.joined : nT) : 0);
    if (omp || warm) if (llabs(tot(m) - m->elapsed_time * n) > SLACK) bad("time", "the region was open for %ld ns with %d threads, which account for %ld ns (useful %ld mpi %ld out %ld)", (long)m->elapsed_time, n, (long)tot(m), (long)m->useful_time, (long)m->mpi_time, (long)m->omp_serialization_time);
    for (int r = 0; r < 2; ++r) if (warm && !U.calls && !(r == 0 && reset) && llabs(tot(U.r[r]) - U.r[r]->elapsed_time * n) > SLACK) bad("time", "region %d was open for %ld ns with %d threads, which account for %ld ns", r, (long)U.r[r]->elapsed_time, n, (long)tot(U.r[r]));
    /* nothing is accumulated by closed regions; regions still work */
    dlb_monitor_t old[3]; for (int r = 0; r < 3; ++r) old[r] = *U.r[r];
    G.now += 1000; IN(0, DLB_MonitoringRegionsUpdate()); if (mc::is_bad()) return;
    for (int r = 0; r < 3; ++r) if (memcmp(&old[r], U.r[r], sizeof old[r])) { bad("closed", "closed region %d still accumulates time", r); return; }
    vn_tick = 0; int64_t before = old[ALL].useful_time; IN(0, DLB_MonitoringRegionStart(U.r[ALL])); G.now += 777; IN(0, DLB_MonitoringRegionStop(U.r[ALL])); vn_tick = 1; if (mc::is_bad()) return;
    if (U.r[ALL]->elapsed_time - old[ALL].elapsed_time != 777 || U.r[ALL]->useful_time - before < 777) bad("time", "a later measurement of 777 ns gives elapsed %ld useful %ld", (long)(U.r[ALL]->elapsed_time - old[ALL].elapsed_time), (long)(U.r[ALL]->useful_time - before));
    IN(0, DLB_Finalize());
}
/* a thread that has already used TALP (it has a sample, in the useful state) before the exploration */
static void scen(const std::vector<std::vector<Step>> &th, int pre, int open) {
    clear(); for (auto &t : th) if (t.size()) thread(0, t);
    if (!mc::scenario(name() + (open ? " open=" + std::to_string(open) : ""))) return;
    memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; vn_inproc_shared = 1; vn_heap_check = 1; vn_tick = 0; vn_keep_durations = 0; vn_sysconf_cpus = 4;
    vn_spawn(1001); topo(0, 4, 4, 1); std::string a = "--talp --talp-summary=none --quiet --lewi=no"; 
    if (omp) { a += " --ompt --talp-openmp"; vn_setenv(0, "DLB_ARGS", a.c_str()); IN(0, ompt_start_tool(201811, "LLVM")->initialize(lookup, 0, nullptr)); }
    else { cpu_set_t m = to_set(3); IN(0, DLB_Init(0, &m, a.c_str())); }
    if (mc::is_bad()) return;
    U.r[0] = (dlb_monitor_t*)IN(0, DLB_MonitoringRegionRegister("A")); U.r[1] = (dlb_monitor_t*)IN(0, DLB_MonitoringRegionRegister("B")); U.r[2] = (dlb_monitor_t*)IN(0, DLB_MonitoringRegionGetGlobal());
    IN(0, DLB_MonitoringRegionStart(U.r[2])); U.nstart[2] = 1;
    for (int r = 0; r < 2; ++r) if (open >> r & 1) { G.now += 50; IN(0, DLB_MonitoringRegionStart(U.r[r])); U.nstart[r]++; }
    G.now += 100; vn_tick = 1;
    start();
    if (warm) { /* each thread gets its sample from an earlier MPI call, made at the moment the region is opened */
        G.now -= 100; int64_t t = G.now; vn_tick = 0; (void)t; 
        for (int i = 0; i < VN_MAXTHR; ++i) if (G.thr[i].entry == body) in_thread(i, []() -> long { DLB_MonitoringRegionGetGlobal(); shim_into(0); shim_out(0); return 0; });
        IN(0, DLB_MonitoringRegionStop(U.r[2])); IN(0, DLB_MonitoringRegionReset(U.r[2])); U.r[2]->num_resets = 0; IN(0, DLB_MonitoringRegionStart(U.r[2])); for (int r = 0; r < 2; ++r) if (open >> r & 1) { IN(0, DLB_MonitoringRegionReset(U.r[r])); U.r[r]->num_resets = 0; IN(0, DLB_MonitoringRegionStart(U.r[r])); }
        G.now += 100; vn_tick = 1; }
    else for (int i = 0; i < VN_MAXTHR; ++i) if (G.thr[i].entry == body && !omp) in_thread(i, []() -> long { DLB_MonitoringRegionGetGlobal(); return 0; });
    if (mc::is_bad()) return;
    mc::Sched s; s.preemptions = pre; s.at_end = at_end; s.max_states = 500000; mc::explore_schedules(s);
}
static void pairs(const std::vector<Step> &ops, int pre, int open) { for (size_t i = 0; i < ops.size(); ++i) for (size_t j = i; j < ops.size(); ++j) scen({{ops[i]}, {ops[j]}}, pre, open); }
void mc_register() {
    int x = mc::level; 
    auto J = [](const std::string &n, bool o, bool w, std::function<void()> f) { mc::job(n, [=]() { omp = o; warm = w; f(); }, 5); };
    J("new.pairs", 0, 0, [=]() { pairs({Reg, Reg2, RegS, StA, SpA, Upd, Mpi}, 2 + x, 1); });
    J("new.triples", 0, 0, [=]() { scen({{Reg}, {Reg}, {Reg}}, 1 + x, 0); scen({{Reg}, {Reg2}, {Mpi}}, 1 + x, 0); scen({{RegS}, {RegS}, {Upd}}, 1 + x, 0); });
    J("warm.pairs", 0, 1, [=]() { pairs({StA, SpA, StB, Upd, Mpi}, 2 + x, 1); });
    J("warm.pairs2", 0, 1, [=]() { scen({{StA, SpA}, {StB, SpB}}, 2 + x, 0); scen({{StA, SpA}, {Mpi}}, 2 + x, 0); scen({{SpA, StA}, {Mpi}}, 2 + x, 1); scen({{StA, SpA}, {StA, SpA}}, 2 + x, 0); scen({{RsA}, {Upd}}, 2 + x, 1); scen({{RsA}, {StB}}, 2 + x, 1); scen({{RsA}, {SpB}}, 2 + x, 3); scen({{RsA}, {Mpi}}, 2 + x, 1); scen({{Mpi}, {Mpi}}, 2 + x, 1); });
    J("warm.triples", 0, 1, [=]() { scen({{StA}, {StB}, {Mpi}}, 1 + x, 0); scen({{SpA}, {Upd}, {Mpi}}, 1 + x, 1); scen({{SpA}, {SpB}, {Upd}}, 1 + x, 3); });
    J("omp.join", 1, 0, [=]() { scen({{Beg}, {Beg}}, 2 + x, 0); scen({{Beg}, {Upd}}, 2 + x, 1); scen({{Beg}, {Beg, StA}}, 2 + x, 0); scen({{Beg}, {Beg, SpA}}, 2 + x, 1); scen({{Beg}, {Beg, Mpi}}, 2 + x, 1); scen({{Beg}, {Beg}, {Beg}}, 1 + x, 1); });
}
