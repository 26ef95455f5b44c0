/* Life of the shared memories: every interleaving, with a bounded number of preemptions, of processes that initialize, use and
 * finalize DLB at the same time (or that die at any point). Whoever initializes joins the others, everybody sees the same processes,
 * LeWI and DROM work between them afterwards, and nothing is left at the end. */
#define LIFE_SCHED
#include "crash.cpp"
#include "sched.h"
extern "C" {
#include "LB_comm/shmem.h"
}
using namespace sc;
static char args[160]; static int newcomer = -1;
static int opening(int i) {
    cpu_set_t m = to_set(C.mask[i]); if (!U.two) mu_testing_set_sys(C.ncpu, C.ncore, 1);
    return C.count ? DLB_Init(popc(C.mask[i]), nullptr, args) : DLB_Init(0, &m, args);
}
static void in(int i) { P[i].up = true; P[i].dead = 0; P[i].use = C.mask[i]; P[i].n = popc(C.mask[i]); }
static void cbs() {
    if (C.count) { DLB_CallbackSet(dlb_callback_set_num_threads, (dlb_callback_t)cb_num, nullptr); return; }
    DLB_CallbackSet(dlb_callback_enable_cpu, (dlb_callback_t)cb_en, nullptr); DLB_CallbackSet(dlb_callback_disable_cpu, (dlb_callback_t)cb_dis, nullptr);
    if (C.drom) DLB_CallbackSet(dlb_callback_set_process_mask, (dlb_callback_t)cb_mask, nullptr);
}
static void o_init(int, int) { int i = role(), e = opening(i); if (e) { U.err = e; return; } in(i); cbs(); }
static void o_two(int, int) { int i = role(), e = opening(i); if (e == DLB_SUCCESS) { U.wins[i]++; in(i); cbs(); } else if (e != DLB_ERR_INIT) U.err = e; }
static void o_fin(int, int) { int i = role(); P[i].up = false; P[i].use = 0; P[i].n = 0; int e = DLB_Finalize(); if (e) U.err = e; }
static void o_fintwo(int, int) { int i = role(), e = DLB_Finalize(); P[i].up = false; P[i].use = 0; P[i].n = 0; if (e == DLB_SUCCESS) U.wins[i]++; else if (e != DLB_NOUPDT) U.err = e; }
static void o_lend(int, int) { if (!C.count) P[role()].use = 0; DLB_Lend(); }
static void o_bor(int, int) { DLB_Borrow(); }
static void o_acq(int, int n) { DLB_AcquireCpus(n); }
static void o_recl(int, int) { DLB_Reclaim(); }
static void o_poll(int, int) { int n; cpu_set_t m; DLB_PollDROM(&n, &m); }
static void o_attach(int, int) { if (!U.two) mu_testing_set_sys(C.ncpu, C.ncore, 1); int e = DLB_DROM_Attach(); if (e) U.err = e; }
static void o_list(int, int) { int l[8], n = 0, e = DLB_DROM_GetPidList(l, &n, 8); if (e < 0) U.err = e; }
static void o_detach(int, int) { int e = DLB_DROM_Detach(); if (e) U.err = e; }
static void o_tattach(int, int) { if (!U.two) mu_testing_set_sys(C.ncpu, C.ncore, 1); int e = DLB_TALP_Attach(); if (e) U.err = e; }
static void o_tlist(int, int) { int l[8], n = 0; DLB_TALP_GetPidList(l, &n, 8); }
static void o_tdetach(int, int) { int e = DLB_TALP_Detach(); if (e) U.err = e; }
static void o_barrier(int, int) { DLB_Barrier(); }
static Step Init{o_init, 0, "Init"}, Two{o_two, 0, "Init"}, Fin{o_fin, 0, "Finalize"}, FinTwo{o_fintwo, 0, "Finalize"}, Lend{o_lend, 0, "Lend"}, Bor{o_bor, 0, "Borrow"}, Acq{o_acq, 1, "AcquireCpus(1)"}, Recl{o_recl, 0, "Reclaim"}, Poll{o_poll, 0, "PollDROM"},
    Att{o_attach, 0, "DROM_Attach"}, List{o_list, 0, "DROM_GetPidList"}, Det{o_detach, 0, "DROM_Detach"}, TAtt{o_tattach, 0, "TALP_Attach"}, TList{o_tlist, 0, "TALP_GetPidList"}, TDet{o_tdetach, 0, "TALP_Detach"}, Barr{o_barrier, 0, "Barrier"};

static void on_crash(int s) {
    int i = s % MP; U.crashes++; U.died[s] = 1; P[i].up = false; P[i].dead = 1; P[i].use = 0; P[i].n = 0;
    if (vn_holds(s)) U.held = true;
    for (int k = 0; k < VN_MAXSHM; ++k) if (G.shm[k].used && G.shm[k].size) { shmem_sync_t *y = (shmem_sync_t*)vn_shm_addr(k); if (y->initializing && !y->initialized && G.shm[k].linked) U.held = true; }
    if (C.count && !C.async) {      /* classic LeWI counts the processes apart from the list of processes */
        int k = -1; for (int j = 0; j < VN_MAXSHM; ++j) if (G.shm[j].used && G.shm[j].linked && !strncmp(G.shm[j].name, "/DLB_lewi_", 10) && strchr("0123456789", G.shm[j].name[10])) k = j;
        if (k >= 0 && G.shm[k].size) { shmem_sync_t *y = (shmem_sync_t*)vn_shm_addr(k); int in = 0; for (int j = 0; j < C.ncpu; ++j) in += y->pidlist[j] != 0; int *c = (int*)((char*)y + ((sizeof(shmem_sync_t) + 4 * C.ncpu + 63) & ~63UL)); if (in != c[1]) U.window = true; } }
    if (newcomer >= 0 && !U.held) { P[i].slot = s + MP; vn_thread_create_in(s + MP, body, &T[newcomer]); }
}
static void at_end(bool dead) {
    if (U.held) {       /* it died in the middle of an update: the others cannot go on, but whoever comes must be told */
        for (int s = 0; s < VN_MAXPROC; ++s) if (U.died[s]) { int i = s % MP, ex = 0; P[i].slot = s + MP; topo(s + MP, C.ncpu, C.ncore, 1);
            vn_tick = 1000000; in_proc(s + MP, [&]() -> long { return opening(i); }, &ex); vn_tick = 0; if (ex && ex != VN_ABORT) bad("held", "P%d died inside a critical section: a new process does not fail cleanly: %s %s", i, exc_name[ex], vn_exc_msg); }
        mc::outcome("died inside a critical section"); return;
    }
    if (dead) for (int t = 0; t < VN_MAXTHR; ++t) if (G.thr[t].entry == body && G.thr[t].state != VT_FREE && G.thr[t].state != VT_DONE && G.thr[t].state != VT_DEAD) { bad("deadlock", "thread %d of P%d is blocked for ever (state %d)", t, G.thr[t].proc, G.thr[t].state); return; }
    for (int s = 0; s < VN_MAXPROC; ++s) if (!G.proc[s].alive && !U.died[s] && G.proc[s].used) { bad("died", "P%d dies: %s", s % MP, vn_exc_msg); return; }
    if (U.err) { bad("error", "a call returned %s", errname(U.err)); return; }
    if (U.two) for (int i = 0; i < C.np; ++i) if (U.wins[i] > 1 || (!U.wins[i] && i == 0 && P[i].up)) { bad("twice", "%d threads of P%d succeed", U.wins[i], i); return; }
    settle(); if (mc::is_bad()) return;
    bool any = U.crashes; for (auto &p : P) any |= p.up; if (!any && vn_shm_count()) { bad("leftover", "everybody finalized and %d shared memories are left", vn_shm_count()); return; }
    for (int i = 0; i < C.np; ++i) if (P[i].up && P[i].slot < 2 * MP && C.async) {      /* the order in which two notifications arrive is not the matter here */
        R(i, DLB_Disable()); settle(); R(i, DLB_Enable()); settle(); if (mc::is_bad()) return; P[i].use = P[i].mask; }
    if (C.drom || !strstr(args, "no-list")) {
        int ids[MP], n = 0; for (int i = 0; i < C.np; ++i) if (P[i].up) ids[n++] = i;
        for (int k = 0; k < n && C.drom; ++k) { int l[8], m = 0; R(ids[k], DLB_DROM_GetPidList(l, &m, 8)); std::set<int> have(l, l + m); for (int j = 0; j < n; ++j) if (!have.count(1001 + P[ids[j]].slot)) { bad("pidlist", "P%d does not see P%d", ids[k], ids[j]); return; } }
    }
    if (U.crashes) mc::outcome("verified after a crash"); else mc::outcome("verified");
    verify();
}
static void setup(const Cfg &c) {
    C = c; memset(&U, 0, sizeof U); U.sched = true; vn_user_ptr = &U; vn_user_size = sizeof U; vn_tick = 0; vn_reset(); vn_sysconf_cpus = C.ncpu; clear(); newcomer = -1; snprintf(args, sizeof args, "--quiet %s", C.args); vn_inproc_shared = 0;
    for (int s = 0; s < 2 * MP; ++s) vn_spawn(1001 + s);
    for (int i = 0; i < C.np; ++i) { P[i].slot = i; P[i].mask = C.mask[i]; }
}
typedef std::vector<std::vector<Step>> Scr;
/* up: who initialized before; scr: what each process does; cr: who may die; nc: what the process that takes its place does meanwhile */
static void go(const Cfg &c, std::vector<int> up, Scr scr, int pre, std::vector<int> cr = {}, std::vector<Step> nc = {}, bool two = false) {
    std::string nm; for (size_t i = 0; i < scr.size(); ++i) { nm += fmt("%sP%d:", i ? " | " : "", two ? 0 : (int)i); for (auto &s : scr[i]) nm += std::string(&s == &scr[i][0] ? "" : ",") + s.name; }
    if (!mc::scenario(nm + (cr.size() ? " with a crash" : "") + (nc.size() ? " and a newcomer" : ""))) return;
    setup(c); U.two = two; for (int i : up) if (!init(i)) return;
    if (two) { vn_inproc_shared = 1; topo(0, C.ncpu, C.ncore, 1); }
    for (size_t i = 0; i < scr.size(); ++i) if (scr[i].size()) thread(two ? 0 : i, scr[i]);
    start();
    if (nc.size()) { newcomer = nT; thread(cr[0] + MP, nc); nT--; }
    mc::Sched s; s.preemptions = pre; s.at_end = at_end; if (cr.size()) { s.crashes = 1; s.crash_procs = cr; s.may_die = true; s.on_crash = on_crash; }
    mc::explore_schedules(s); vn_inproc_shared = 0;
}
void mc_register() {
    struct M { const char *n; Cfg c; };
    Cfg m{2, 2, 2, {1, 2, 0}, "--lewi", false, false, false}, m3{3, 3, 3, {1, 2, 4}, "--lewi", false, false, false};
    auto with = [](Cfg c, const char *a, bool async, bool count, bool drom) { c.args = a; c.async = async; c.count = count; c.drom = drom; return c; };
    std::vector<M> ms = {{"mask", m}, {"async", with(m, "--lewi --mode=async", true, false, false)}, {"count", with(m, "--lewi", false, true, false)}, {"countasync", with(m, "--lewi --mode=async", true, true, false)},
        {"drom", with(m, "--drom --lewi=no", false, false, true)}, {"talp", with(m, "--lewi --talp --talp-external-profiler --talp-summary=none", false, false, false)}, {"barrier", with(m, "--lewi --barrier", false, false, false)}};
    for (auto &x : ms) {
        Cfg c = x.c, c3 = x.c; c3.np = 3; c3.ncpu = c3.ncore = 3; c3.mask[2] = 4; std::string n = x.n; Step B = c.async ? Acq : Bor;
        auto J = [&](const std::string &k, std::function<void()> f) { mc::job(n + "." + k, f, 10); };
        int q = 1;
        J("init", [=] { go(c, {}, {{Init}, {Init}}, q + mc::level); });
        J("finit", [=] { go(c, {0}, {{Fin}, {Init}}, q + mc::level); });
        J("life", [=] { go(c, {}, {{Init, Fin}, {Init, Fin}}, q + mc::level); });
        J("again", [=] { go(c, {0}, {{Fin, Init}, {Init, Fin}}, q + mc::level); });
        J("fin", [=] { go(c, {0, 1}, {{Fin}, {Fin}}, q + mc::level); });
        J("three", [=] { go(c3, {0}, {{Fin}, {Init}, {Init}}, mc::level); go(c3, {0, 1}, {{Fin}, {Fin}, {Init}}, mc::level); });
        if (!c.drom) J("use", [=] { go(c, {}, {{Init, Lend, Fin}, {Init, B}}, mc::level); go(c, {0}, {{Lend, Fin}, {Init, B, Fin}}, q + mc::level); });
        J("crash", [=] { go(c, {}, {{Init}, {Init}}, mc::level, {0}); go(c, {0, 1}, {{Fin}, {Fin}}, mc::level, {0}); go(c, {1}, {{Init}, {}}, q + mc::level, {0}); go(c, {0, 1}, {{Fin}, {}}, q + mc::level, {0}); });
        J("crash.newcomer", [=] { go(c, {1}, {{Init}, {}}, mc::level, {0}, {Init}); go(c, {0, 1}, {{Fin}, {Fin}}, mc::level, {0}, {Init}); });
    }
    Cfg d = with(m, "--drom --lewi=no", false, false, true), t = ms[5].c;
    mc::job("drom.admin", [=] { go(d, {0}, {{Fin}, {Att, List, Det}}, 1 + mc::level); go(d, {}, {{Init, Fin}, {Att, List, Det}}, 1 + mc::level); go(d, {}, {{Init}, {Att, Det}}, 1 + mc::level); }, 10);
    mc::job("talp.admin", [=] { go(t, {0}, {{Fin}, {TAtt, TList, TDet}}, 1 + mc::level); go(t, {}, {{Init, Fin}, {TAtt, TList, TDet}}, 1 + mc::level); go(t, {}, {{Init}, {TAtt, TDet}}, 1 + mc::level); }, 10);
    mc::job("threads.drom", [=] { go(d, {1}, {{Att, List, Det}, {Att, List, Det}}, 1 + mc::level, {}, {}, true); }, 10);
    mc::job("threads.talp", [=] { go(t, {1}, {{TAtt, TList, TDet}, {TAtt, TList, TDet}}, 1 + mc::level, {}, {}, true); }, 10);
    mc::job("threads", [=] { go(m, {}, {{Two}, {Two}}, 1 + mc::level, {}, {}, true); go(m, {0}, {{FinTwo}, {FinTwo}}, 1 + mc::level, {}, {}, true); }, 10);
}
