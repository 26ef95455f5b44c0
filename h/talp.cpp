/* TALP accounting: every sequence of region operations, MPI calls and OpenMP events on the real code (each thread a
 * virtual thread with its own thread-local data), against a machine that attributes every interval of time of every
 * thread, by the state the thread is in, to the regions that are open during it. */
#include "hn.h"
extern "C" {
#include "LB_numThreads/omp-tools.h"
long shim_into(long), shim_out(long), shim_mpi_init(void);
ompt_start_tool_result_t *ompt_start_tool(unsigned, const char*);
}
using mc::bad; using mc::fmt;
enum { NT = 4, NR = 3, G0 = 2, LAST = 3 };                    /* regions A, B and the global one */
enum St { DIS, USE, MPI, IN_, OUT };
enum Pos { SERIAL, NONE, FUNC, SYNC, BARR };          /* where a thread is in the innermost team it belongs to */
struct Thr { int sample, st; int64_t pend; int inmpi, begun, task, obs; };
struct Reg { int enabled, open; int64_t start, stop, el, us, mp, lb, sc, se, calls, pars, tasks; int cpus, meas, resets; dlb_monitor_t *h; };
struct Team { int active, n, mem[NT], pos[NT]; ompt_data_t pd, task[NT]; ompt_data_t enc; };
static struct User { Thr t[NT]; Reg r[NR]; Team team[3]; int order[8], norder, flushed, fin; } U;
static struct Cfg { int omp, ext, nt, mpi; const char *sel; } C;
static int tid[NT]; static const char *RN[NR] = {"A", "AB", "Global"}; static void *code[3] = {(void*)0x1000, (void*)0x2000, (void*)0x3000};
#define TH(i, expr) in_thread(tid[i], [&]() -> long { return (long)(expr); })
static void *cbs[64]; static int set_cb(int ev, void *f) { if (ev < 64) cbs[ev] = f; return ompt_set_always; }
static ompt_interface_fn_t lookup(const char *n) { return !strcmp(n, "ompt_set_callback") ? (ompt_interface_fn_t)set_cb : nullptr; }
static std::string show() { std::string s; for (int i = 0; i < C.nt; ++i) s += fmt("t%d:%s%s ", i, U.t[i].sample ? "" : "-", (const char*[]){"disabled","useful","mpi","omp-in","omp-out"}[U.t[i].st]); for (int r = 0; r < NR; ++r) s += fmt("%s:%s ", RN[r], U.r[r].open ? "open" : "closed"); return s; }
static void rc(const char *op, long got, long w) { if (got != w) bad("result", "%s returned %s, should be %s (%s)", op, errname(got), errname(w), show().c_str()); }
/* ---- reference machine */
static void pass(int64_t dt) {
    G.now += dt; U.flushed = 0;
    for (int i = 0; i < C.nt; ++i) { Thr &t = U.t[i]; if (!t.sample) continue;
        if (t.st == IN_) t.pend += dt;
        for (auto &r : U.r) if (r.open) { if (t.st == USE) r.us += dt; if (t.st == MPI) r.mp += dt; if (t.st == OUT) r.se += dt; } }
}
static void touch(int i) { U.t[i].sample = 1; }
static int nsamples() { int n = 0; for (auto &t : U.t) n += t.sample; return n; }
static void flush() { for (auto &r : U.r) if (r.open && r.cpus < nsamples()) r.cpus = nsamples(); U.flushed = 1; }
static void drop(int r) { int k = 0; for (int i = 0; i < U.norder; ++i) if (U.order[i] != r) U.order[k++] = U.order[i]; U.norder = k; }
static void m_start(int r, int i) { touch(i); flush(); Reg &R = U.r[r]; R.open = 1; R.start = G.now; R.stop = 0; U.order[U.norder++] = r; U.t[i].st = USE; }
static void m_stop(int r, int i) { touch(i); flush(); Reg &R = U.r[r]; R.open = 0; R.stop = G.now; R.el += R.stop - R.start; R.meas++; drop(r); }
/* ---- comparison with the monitors */
static void cmp(int r, const char *what, int64_t got, int64_t want) { if (got != want) bad(what, "region %s: %s is %ld, should be %ld (%s)", RN[r], what, (long)got, (long)want, show().c_str()); }
static void check_region(int r, bool exact) {
    Reg &R = U.r[r]; const dlb_monitor_t *m = R.h; if (!m) return;
    cmp(r, "num_measurements", m->num_measurements, R.meas); cmp(r, "num_resets", m->num_resets, R.resets); cmp(r, "elapsed_time", m->elapsed_time, R.el); cmp(r, "num_cpus", m->num_cpus, R.cpus);
    if (R.open || R.el) cmp(r, "start_time", m->start_time, R.start);
    if (!R.open && R.el) cmp(r, "stop_time", m->stop_time, R.stop);
    if (strcmp(m->name, RN[r])) bad("name", "region %s is called '%s'", RN[r], m->name);
    if (exact) {
        cmp(r, "useful_time", m->useful_time, R.us); cmp(r, "mpi_time", m->mpi_time, R.mp); cmp(r, "omp_load_imbalance_time", m->omp_load_imbalance_time, R.lb);
        cmp(r, "omp_scheduling_time", m->omp_scheduling_time, R.sc); cmp(r, "omp_serialization_time", m->omp_serialization_time, R.se);
        cmp(r, "num_mpi_calls", m->num_mpi_calls, R.calls); cmp(r, "num_omp_parallels", m->num_omp_parallels, R.pars); cmp(r, "num_omp_tasks", m->num_omp_tasks, R.tasks);
    } else {
        if (m->useful_time > R.us || m->mpi_time > R.mp || m->omp_serialization_time > R.se || m->num_mpi_calls > R.calls || m->num_omp_parallels > R.pars || m->num_omp_tasks > R.tasks) bad("ahead", "region %s has more than what happened (%s)", RN[r], show().c_str());
        cmp(r, "omp_load_imbalance_time", m->omp_load_imbalance_time, R.lb); cmp(r, "omp_scheduling_time", m->omp_scheduling_time, R.sc);
    }
}
static int nomp() { int n = 0; for (int i = 0; i < C.nt; ++i) n += U.t[i].pend != 0; return n; }
static void invariant() {
    if (U.fin) return;
    for (int r = 0; r < NR; ++r) check_region(r, !U.r[r].open || U.flushed);
}
/* ---- operations: every one happens at its own instant */
static bool user(int i) { return !U.fin && !U.t[i].inmpi; }
/* thread i runs user code */
static bool incode(int i) { if (!user(i)) return false; if (!C.omp) return true; if (U.t[i].task) return true; int l = 2; for (; l > 0; --l) if (U.team[l].active) for (int k = 0; k < U.team[l].n; ++k) if (U.team[l].mem[k] == i) return U.team[l].pos[k] == FUNC; return i == 0; }
static int pick(int r) { return r == LAST ? (U.norder ? U.order[U.norder-1] : -1) : r; }
static void op_start(int i, int r, int64_t dt) {
    pass(dt); Reg &R = U.r[r]; bool go = !R.open && R.enabled;
    long e = TH(i, DLB_MonitoringRegionStart(r == G0 && i == 0 ? DLB_GLOBAL_REGION : R.h)); if (mc::is_bad()) return; if (U.t[i].obs) { rc("MonitoringRegionStart of an observer", e, DLB_ERR_PERM); mc::outcome("an observer starts a region"); return; }
    if (go) m_start(r, i); rc("MonitoringRegionStart", e, go ? DLB_SUCCESS : DLB_NOUPDT); if (go) mc::outcome(U.norder > 1 ? "region started inside another" : "region started");
}
static void op_stop(int i, int rr, int64_t dt) {
    pass(dt); int r = pick(rr); long e = TH(i, DLB_MonitoringRegionStop(rr == LAST ? (dlb_monitor_t*)DLB_LAST_OPEN_REGION : rr == G0 && i == 0 ? DLB_GLOBAL_REGION : U.r[r].h)); if (mc::is_bad()) return; if (U.t[i].obs) { rc("MonitoringRegionStop of an observer", e, DLB_ERR_PERM); return; }
    if (r < 0) { rc("MonitoringRegionStop(last)", e, DLB_ERR_NOENT); return; }
    bool go = U.r[r].open; if (go) { if (U.norder > 1 && U.order[U.norder-1] != r) mc::outcome("outer region stopped first"); m_stop(r, i); mc::outcome("region stopped"); }
    rc("MonitoringRegionStop", e, go ? DLB_SUCCESS : DLB_NOUPDT);
}
static void op_reset(int i, int r, int64_t dt) {
    pass(dt); Reg &R = U.r[r]; long e = TH(i, DLB_MonitoringRegionReset(r == G0 ? DLB_GLOBAL_REGION : R.h)); if (mc::is_bad()) return; rc("MonitoringRegionReset", e, DLB_SUCCESS);
    if (R.open) { drop(r); mc::outcome("open region reset"); }
    Reg n; memset(&n, 0, sizeof n); n.enabled = R.enabled; n.resets = R.resets + 1; n.h = R.h; R = n;
    if (R.h->avg_cpus != 0) bad("reset", "avg_cpus not reset"); if (R.h->start_time || R.h->stop_time) bad("reset", "region %s: start and stop times not reset", RN[r]);
}
static void op_update(int i, int64_t dt) { pass(dt); long e = TH(i, DLB_MonitoringRegionsUpdate()); if (mc::is_bad()) return; rc("MonitoringRegionsUpdate", e, U.t[i].obs ? DLB_ERR_PERM : DLB_SUCCESS); if (!U.t[i].obs) flush(); }
static void op_obs(int i, int64_t dt) { pass(dt); U.t[i].obs = !U.t[i].obs; long e = TH(i, DLB_SetObserverRole(U.t[i].obs)); if (mc::is_bad()) return; rc("SetObserverRole", e, DLB_SUCCESS); }
static void op_register(int i, int r, int64_t dt) {
    pass(dt); char nm[16]; snprintf(nm, 16, "%s", r == G0 ? "gLoBAL" : RN[r]); dlb_monitor_t *h = (dlb_monitor_t*)TH(i, DLB_MonitoringRegionRegister(nm)); if (mc::is_bad()) return;
    if (h != U.r[r].h) bad("register", "registering %s again gives a different region", RN[r]);
}
static void op_into(int i, int64_t dt) { pass(dt); TH(i, shim_into(0)); if (U.t[i].obs) { U.t[i].inmpi = 1; mc::outcome("MPI call of an observer"); return; } touch(i); U.t[i].st = MPI; U.t[i].inmpi = 1; if (C.ext) flush(); mc::outcome("MPI call"); }
static void op_out(int i, int64_t dt) { pass(dt); TH(i, shim_out(0)); if (U.t[i].obs) { U.t[i].inmpi = 0; return; } U.t[i].st = USE; U.t[i].inmpi = 0; for (auto &r : U.r) if (r.open) r.calls++; if (C.ext) flush(); }
/* OpenMP events, as a runtime emits them */
static int member(int l, int i) { for (int k = 0; k < U.team[l].n; ++k) if (U.team[l].mem[k] == i) return k; return -1; }
static int inner(int i) { for (int l = 2; l > 0; --l) if (U.team[l].active && member(l, i) >= 0) return l; return 0; }
static int &pos(int i) { int l = inner(i); return U.team[l].pos[member(l, i)]; }
static void op_pb(int l, const std::vector<int> &mem, int64_t dt) {
    pass(dt); Team &T = U.team[l]; memset(&T, 0, sizeof T); T.active = 1; T.n = mem.size(); for (int k = 0; k < T.n; ++k) { T.mem[k] = mem[k]; T.pos[k] = NONE; }
    int i = mem[0]; Team *up = l > 1 ? &U.team[l-1] : nullptr; ompt_frame_t fr; memset(&fr, 0, sizeof fr); if (up) fr.exit_frame.ptr = (void*)0x77; ompt_data_t *enc = up ? &up->task[member(l-1, i)] : &U.team[0].enc;
    TH(i, (((ompt_callback_parallel_begin_t)cbs[ompt_callback_parallel_begin])(enc, &fr, &T.pd, T.n, ompt_parallel_team | ompt_parallel_invoker_runtime, code[l]), 0)); if (mc::is_bad()) return;
    for (auto &r : U.r) if (r.open) r.pars++;
    touch(i); if (l > 1) mc::outcome("nested parallel"); else mc::outcome("parallel");
}
static void op_tb(int i, int64_t dt) {
    pass(dt); ompt_data_t d; d.value = 0; TH(i, (((ompt_callback_thread_begin_t)cbs[ompt_callback_thread_begin])(ompt_thread_worker, &d), 0)); if (mc::is_bad()) return;
    touch(i); U.t[i].st = OUT; U.t[i].begun = 1; for (auto &r : U.r) if (r.open) r.se += G.now - r.start; if (U.norder > 1) mc::outcome("thread created in nested regions");
}
static void op_te(int i, int64_t dt) { pass(dt); ompt_data_t d; d.value = 0; TH(i, (((ompt_callback_thread_end_t)cbs[ompt_callback_thread_end])(&d), 0)); U.t[i].st = DIS; U.t[i].begun = 2; }
static void op_it(int l, int k, int64_t dt) {
    pass(dt); Team &T = U.team[l]; int i = T.mem[k]; TH(i, (((ompt_callback_implicit_task_t)cbs[ompt_callback_implicit_task])(ompt_scope_begin, &T.pd, &T.task[k], T.n, k, ompt_task_implicit), 0));
    T.pos[k] = FUNC; U.t[i].st = USE;
}
static void op_sync(int i, bool begin, int kind, int64_t dt) {
    pass(dt); int l = inner(i), k = member(l, i); Team &T = U.team[l];
    TH(i, (((ompt_callback_sync_region_t)cbs[ompt_callback_sync_region])((ompt_sync_region_t)kind, begin ? ompt_scope_begin : ompt_scope_end, &T.pd, &T.task[k], (void*)0x9999), 0));
    T.pos[k] = begin ? SYNC : FUNC; U.t[i].st = begin ? IN_ : USE;
}
static void op_bar(int i, int kind, int64_t dt) {
    pass(dt); int l = inner(i), k = member(l, i); Team &T = U.team[l];
    TH(i, (((ompt_callback_sync_region_t)cbs[ompt_callback_sync_region])((ompt_sync_region_t)kind, ompt_scope_begin, &T.pd, &T.task[k], k == 0 ? code[l] : nullptr), 0)); T.pos[k] = BARR; U.t[i].st = IN_;
}
static void op_pe(int l, int64_t dt) {
    pass(dt); Team &T = U.team[l]; int i = T.mem[0]; for (int k = 1; k < T.n; ++k) ;
    ompt_data_t *enc = l > 1 ? &U.team[l-1].task[member(l-1, i)] : &U.team[0].enc;
    TH(i, (((ompt_callback_parallel_end_t)cbs[ompt_callback_parallel_end])(&T.pd, enc, ompt_parallel_team | ompt_parallel_invoker_runtime, code[l]), 0)); if (mc::is_bad()) return;
    int from = l == 1 ? 0 : 1; int64_t mn = INT64_MAX, sum = 0; int n = 0; for (int k = from; k < T.n; ++k) { int64_t p = U.t[T.mem[k]].pend; if (p < mn) mn = p; sum += p; ++n; U.t[T.mem[k]].pend = 0; }
    for (auto &r : U.r) if (r.open) { if (n) { r.lb += sum - mn * n; r.sc += mn * n; } if (r.cpus < n) r.cpus = n; }
    if (n && sum != mn * n) mc::outcome("load imbalance"); if (n && mn) mc::outcome("scheduling time");
    U.t[i].st = USE; for (int k = 1; k < T.n; ++k) if (U.t[T.mem[k]].st == IN_) U.t[T.mem[k]].st = OUT;
    memset(&T, 0, sizeof T);
}
static void op_tcreate(int i, int64_t dt) { pass(dt); int l = inner(i); Team &T = U.team[l]; ompt_data_t nt; nt.value = 0; ompt_frame_t fr; memset(&fr, 0, sizeof fr);
    TH(i, (((ompt_callback_task_create_t)cbs[ompt_callback_task_create])(&T.task[member(l, i)], &fr, &nt, ompt_task_explicit, 0, nullptr), 0)); for (auto &r : U.r) if (r.open) r.tasks++; mc::outcome("task"); }
static void op_tsched(int i, bool run, int64_t dt) { pass(dt); ompt_data_t a, b; a.value = b.value = 1;
    TH(i, (((ompt_callback_task_schedule_t)cbs[ompt_callback_task_schedule])(&a, run ? ompt_task_switch : ompt_task_complete, &b), 0)); U.t[i].task = run; U.t[i].st = run ? USE : IN_; }
static void op_fin(int64_t dt) {
    pass(dt); int open = U.norder; (void)open; long e = TH(0, DLB_Finalize()); if (mc::is_bad()) return; rc("DLB_Finalize", e, DLB_SUCCESS); U.fin = 1;
    if (vn_shm_count()) bad("leftover", "%d shared memories left", vn_shm_count());
}
static void begin();
static void setup() {
    memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; vn_keep_durations = 1; vn_tick = 0; vn_reset(); vn_sysconf_cpus = 4; int p = vn_spawn(1001); (void)p; tid[0] = vn_main_thread(0); for (int i = 1; i < C.nt; ++i) tid[i] = vn_thread_extra(0);
    begin();
}
static void begin() {
    topo(0, 4, 4, 1); std::string a = "--talp --talp-summary=none --quiet --lewi=no"; if (C.ext) a += " --talp-external-profiler"; if (C.sel) a += fmt(" --talp-region-select=%s", C.sel);
    if (C.omp) { a += " --ompt --talp-openmp"; vn_setenv(0, "DLB_ARGS", a.c_str()); G.now += 5;
        TH(0, ompt_start_tool(201811, "LLVM")->initialize(lookup, 0, nullptr)); U.t[0].sample = 1; U.t[0].st = USE; U.t[0].begun = 1; U.r[G0].open = 1; U.r[G0].start = G.now; U.order[U.norder++] = G0; }
    else { cpu_set_t m = to_set(3); long e = IN(0, DLB_Init(0, &m, a.c_str())); if (e) bad("init", "DLB_Init: %s", errname(e)); }
    for (int r = 0; r < NR; ++r) { U.r[r].h = (dlb_monitor_t*)(r == G0 ? TH(0, DLB_MonitoringRegionGetGlobal()) : TH(0, DLB_MonitoringRegionRegister(RN[r]))); U.r[r].enabled = 1; if (!U.r[r].h) { bad("register", "cannot register %s", RN[r]); return; } }
    if (C.sel) { bool ex = !strncmp(C.sel, "exclude:", 8); const char *l = strchr(C.sel, ':'); std::string L = std::string(",") + (l ? l + 1 : C.sel) + ","; for (int r = 0; r < NR; ++r) { std::string nm = RN[r], L2 = L; if (r == G0) { nm = "global"; for (auto &ch : L2) ch = tolower(ch); } bool in = L == ",all," || L2.find("," + nm + ",") != std::string::npos; U.r[r].enabled = in != ex; } }
    if (!C.omp) for (int i = 1; i < C.nt; ++i) TH(i, DLB_MonitoringRegionGetGlobal());     /* the thread enters DLB */
    if (C.mpi) { pass(3); TH(0, shim_mpi_init()); if (U.r[G0].enabled) m_start(G0, 0); else touch(0); U.t[0].st = USE; for (auto &r : U.r) if (r.open) r.calls++; U.flushed = 0; }
    invariant();
}
/* initialized again after DLB_Finalize: the threads of the first time are still there */
static void op_again(int64_t dt) { memset(&U, 0, sizeof U); G.now += dt; begin(); }
static std::vector<mc::Op> ops; static int64_t nextdt;
static void add(const std::string &n, std::function<bool()> en, std::function<void(int64_t)> run) { static const int64_t P[] = {7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,101,103,107,109,113,127,131,137,139,149,151,157,163,167}; int64_t dt = P[nextdt++ % 36]; ops.push_back({n, en, [=]() { run(dt); }}); }
static void regions(std::vector<int> thr, std::vector<int> regs, bool reset) {
    for (int i : thr) { for (int r : regs) { add(fmt("start t%d %s", i, RN[r]), [=]() { return incode(i) && !nomp(); }, [=](int64_t d) { op_start(i, r, d); }); add(fmt("stop t%d %s", i, RN[r]), [=]() { return incode(i) && !nomp(); }, [=](int64_t d) { op_stop(i, r, d); });
        if (reset && i == 0) add(fmt("reset %s", RN[r]), [=]() { return incode(0) && !nomp(); }, [=](int64_t d) { op_reset(0, r, d); }); }
      if (i == 0) add(fmt("stop t%d last", i), [=]() { return incode(i) && !nomp(); }, [=](int64_t d) { op_stop(i, LAST, d); });
      add(fmt("update t%d", i), [=]() { return incode(i) && !nomp() && (U.t[i].sample || U.t[i].obs); }, [=](int64_t d) { op_update(i, d); }); }
}
static void mpiops(std::vector<int> thr) { for (int i : thr) { add(fmt("into t%d", i), [=]() { return incode(i); }, [=](int64_t d) { op_into(i, d); }); add(fmt("out t%d", i), [=]() { return U.t[i].inmpi && !U.fin; }, [=](int64_t d) { op_out(i, d); }); } }
static void ompops(bool tasks, bool sync, std::vector<std::vector<int>> teams, std::vector<std::vector<int>> nested) {
    for (auto &t : teams) { std::string s; for (int i : t) s += fmt("%d", i); add("parallel " + s, [=]() { if (!user(0) || U.team[1].active || !incode(0)) return false; for (int i : t) if (U.t[i].begun == 2) return false; return true; }, [=](int64_t d) { op_pb(1, t, d); }); }
    for (auto &t : nested) { std::string s; for (int i : t) s += fmt("%d", i); add("nested " + s, [=]() { if (!U.team[1].active || U.team[2].active || !incode(t[0])) return false; if (member(1, t[0]) < 0) return false; for (size_t k = 1; k < t.size(); ++k) if (member(1, t[k]) >= 0) return false; return true; }, [=](int64_t d) { op_pb(2, t, d); }); }
    int L = nested.empty() ? 1 : 2;
    for (int i = 1; i < C.nt; ++i) { add(fmt("thread begin %d", i), [=]() { if (U.t[i].begun || U.fin) return false; for (int l = 1; l <= 2; ++l) if (U.team[l].active && member(l, i) >= 0) return true; return false; }, [=](int64_t d) { op_tb(i, d); });
        if (i == 1) add(fmt("thread end %d", i), [=]() { return !U.fin && U.t[i].begun == 1 && !inner(i); }, [=](int64_t d) { op_te(i, d); }); }
    for (int l = 1; l <= L; ++l) for (int k = 0; k < C.nt; ++k) add(fmt("implicit task L%d #%d", l, k), [=]() { Team &T = U.team[l]; return !U.fin && T.active && k < T.n && T.pos[k] == NONE && U.t[T.mem[k]].begun == 1; }, [=](int64_t d) { op_it(l, k, d); });
    for (int i = 0; i < C.nt; ++i) {
        add(fmt("barrier t%d", i), [=]() { return inner(i) && user(i) && pos(i) == FUNC && !U.t[i].task; }, [=](int64_t d) { op_bar(i, i == 2 ? ompt_sync_region_barrier_implicit_parallel : ompt_sync_region_barrier_implicit, d); });
        if (sync && i < 2) { add(fmt("sync begin t%d", i), [=]() { return inner(i) && user(i) && pos(i) == FUNC && !U.t[i].task; }, [=](int64_t d) { op_sync(i, true, i ? ompt_sync_region_barrier_explicit : ompt_sync_region_barrier_implicit, d); }); add(fmt("sync end t%d", i), [=]() { return inner(i) && user(i) && pos(i) == SYNC && !U.t[i].task; }, [=](int64_t d) { op_sync(i, false, i ? ompt_sync_region_barrier_explicit : ompt_sync_region_barrier_implicit, d); }); }
        if (tasks && i < 2) { add(fmt("create task t%d", i), [=]() { return inner(i) && user(i) && pos(i) == FUNC && !U.t[i].task; }, [=](int64_t d) { op_tcreate(i, d); });
            add(fmt("run task t%d", i), [=]() { return inner(i) && user(i) && (pos(i) == SYNC || pos(i) == BARR) && !U.t[i].task; }, [=](int64_t d) { op_tsched(i, true, d); }); add(fmt("end task t%d", i), [=]() { return inner(i) && user(i) && U.t[i].task; }, [=](int64_t d) { op_tsched(i, false, d); }); }
    }
    for (int l = 1; l <= L; ++l) add(fmt("parallel end L%d", l), [=]() { Team &T = U.team[l]; if (U.fin || !T.active || (l == 1 && U.team[2].active) || U.t[T.mem[0]].inmpi) return false; for (int k = 0; k < T.n; ++k) if (T.pos[k] != BARR || U.t[T.mem[k]].task) return false; return true; }, [=](int64_t d) { op_pe(l, d); });
}
static void go(int depth, std::vector<std::string> pre = {}) {
    ops.push_back({"finalize", []() { return incode(0) && !U.team[1].active; }, []() { op_fin(173); }});
    for (auto &p : pre) { bool f = false; for (auto &o : ops) if (o.name == p) { if (!o.enabled()) bad("prefix", "prefix op %s not enabled", p.c_str()); o.run(); f = true; } if (!f) bad("prefix", "no op %s", p.c_str()); invariant(); if (mc::is_bad()) return; }
    mc::Limits L; L.depth = depth + mc::level; L.max_states = 3000000; for (int i = 0; i < (int)ops.size(); ++i) if (ops[i].name.find("stop t0") == 0 || ops[i].name == "update t0" || ops[i].name.find("parallel end") == 0) L.probes.push_back(i);
    mc::explore_ops(ops, invariant, L);
}
static void J(const std::string &name, Cfg c, std::function<void()> build, int depth, std::vector<std::string> pre = {}, int w = 1) { mc::job(name, [=]() { C = c; ops.clear(); nextdt = 0; setup(); if (mc::is_bad()) return; build(); go(depth, pre); }, w); }
void mc_register() {
    Cfg m{}; m.nt = 1; m.mpi = 1;
    J("mpi.1t", m, []() { regions({0}, {0, 1, G0}, true); mpiops({0}); }, 5);
    m.nt = 2; J("mpi.2t", m, []() { regions({0, 1}, {0}, false); mpiops({0, 1}); }, 6);
    J("mpi.2t.regions", m, []() { regions({0, 1}, {0, 1}, true); mpiops({1}); }, 5);
    J("mpi.2t.again", m, []() { regions({0, 1}, {0}, false); mpiops({0, 1}); ops.push_back({"initialize again", []() { return U.fin && !U.t[0].inmpi && !U.t[1].inmpi; }, []() { op_again(5); }}); }, 5, {"into t1", "out t1", "start t1 A", "finalize", "initialize again"});
    J("mpi.2t.observer", m, []() { regions({0, 1}, {0}, false); mpiops({0, 1}); add("observer t1", []() { return user(1) && !U.t[1].inmpi; }, [](int64_t d) { op_obs(1, d); }); }, 5);
    m.nt = 1; m.ext = 1; J("mpi.ext", m, []() { regions({0}, {0, 1}, true); mpiops({0}); }, 5);
    m.ext = 0; m.mpi = 0; m.nt = 2; J("api", m, []() { regions({0, 1}, {0, G0}, true); add("register A", []() { return user(0); }, [](int64_t d) { op_register(0, 0, d); }); add("register global", []() { return user(0); }, [](int64_t d) { op_register(1, G0, d); }); }, 5);
    const char *sels[] = {"A", "include:A,global", "exclude:A", "exclude:all", "include:all", "all", "exclude:AB,GLOBAL", "include:AB", "include:a,ABC,Glob", "exclude:B,ab,all"}; int k = 0;
    for (auto s : sels) { m.nt = 1; m.mpi = 1; m.sel = s; J(fmt("select.%d", k++), m, []() { regions({0}, {0, 1, G0}, false); mpiops({0}); }, 3); }
    Cfg o{}; o.omp = 1; o.nt = 3;
    J("omp.fork", o, []() { ompops(false, false, {{0}, {0, 1}, {0, 1, 2}}, {}); }, 9, {}, 3);
    o.nt = 2;
    J("omp.regions", o, []() { regions({0}, {0, G0}, false); ompops(false, false, {{0, 1}}, {}); }, 7, {}, 3);
    J("omp.sync", o, []() { ompops(false, true, {{0, 1}}, {}); regions({0}, {0}, false); }, 6, {"parallel 01", "thread begin 1"}, 3);
    J("omp.tasks", o, []() { ompops(true, true, {{0, 1}}, {}); }, 7, {"parallel 01", "thread begin 1", "implicit task L1 #0"}, 3);
    J("omp.mpi", o, []() { ompops(false, false, {{0, 1}}, {}); mpiops({0, 1}); regions({0}, {0}, false); }, 6, {"start t0 A", "parallel 01"}, 3);
    o.nt = 3;
    J("omp.again", o, []() { ompops(false, false, {{0, 1}, {0, 1, 2}}, {}); regions({0}, {0}, false); }, 7, {"parallel 01", "thread begin 1", "implicit task L1 #0", "implicit task L1 #1", "barrier t0", "barrier t1", "parallel end L1"}, 3);
    J("omp.nested", o, []() { ompops(false, false, {{0, 1}}, {{0, 2}, {1, 2}, {0}}); }, 8, {"parallel 01", "thread begin 1", "implicit task L1 #0", "implicit task L1 #1"}, 3);
    J("omp.nested.end", o, []() { ompops(false, true, {{0, 1}}, {{0, 2}, {1, 2}}); regions({0}, {0}, false); }, 6, {"parallel 01", "thread begin 1", "implicit task L1 #0", "implicit task L1 #1", "nested 02", "thread begin 2", "implicit task L2 #0", "implicit task L2 #1"}, 3);
}
