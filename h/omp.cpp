/* The OpenMP thread manager: P0 is an OpenMP program whose runtime emits the OMPT events of its parallel regions and whose
 * threads are virtual threads, P1 is any other LeWI process. Every sequence of regions, blocking calls and API operations is
 * executed on the real code; the CPUs that P0 uses, the size of its teams and the binding of its threads are compared with
 * the reference machine of the CPU-sharing protocol (the one of lewi_mask.cpp). */
#define mc_register lewi_register
#include "lewi_mask.cpp"
#undef mc_register
extern "C" {
#include "LB_numThreads/omp-tools.h"
ompt_start_tool_result_t *ompt_start_tool(unsigned, const char*);
void omp_set_num_threads(int n) { int p = G.cur_proc; U.o[p].nt = n; U.o[p].nset++; }
}
enum { NTH = 8 };
static struct OCfg { const char *ompt, *places, *nthreads; int tpc, level1; bool bound; int cur; } O;
static int tid[NTH]; static ompt_start_tool_result_t *tool;
static void *ocbs[64]; static int oset_cb(int ev, void *f) { if (ev < 64) ocbs[ev] = f; return ompt_set_always; }
static ompt_interface_fn_t olookup(const char *n) { return !strcmp(n, "ompt_set_callback") ? (ompt_interface_fn_t)oset_cb : nullptr; }
#define T(i, expr) in_thread(tid[i], [&]() -> long { return (long)(expr); })
static auto &X = U.o[0];
static ompt_data_t pdata, task[NTH], enc; /* data of the region; only used inside one operation, or constant afterwards */
/* what the manager was told, as seen by whoever observes the callbacks: record, and let it do its work */
static dlb_callback_t f_en, f_dis, f_ens, f_diss, f_pm;
static void o_en(int c, void *a) { cb_en(c, a); X.act |= 1UL << c; ((dlb_callback_enable_cpu_t)f_en)(c, a); }
static void o_dis(int c, void *a) { cb_dis(c, a); X.act &= ~(1UL << c); ((dlb_callback_disable_cpu_t)f_dis)(c, a); }
static void o_ens(const cpu_set_t *s, void *a) { Mask m = from_set(s); for (int c = 0; c < C.ncpu; ++c) if (m >> c & 1) cb_en(c, a); X.act |= m; ((dlb_callback_enable_cpu_set_t)f_ens)(s, a); }
static void o_diss(const cpu_set_t *s, void *a) { Mask m = from_set(s); for (int c = 0; c < C.ncpu; ++c) if (m >> c & 1) cb_dis(c, a); X.act &= ~m; ((dlb_callback_disable_cpu_set_t)f_diss)(s, a); }
static void o_pm(const cpu_set_t *s, void *a) { cb_mask(s, a); Mask m = from_set(s), lost = X.own & ~m; X.own = m; for (int c = 0; c < C.ncpu; ++c) if ((lost >> c & 1) && M.guest[c] != 0) X.act &= ~(1UL << c); ((dlb_callback_set_process_mask_t)f_pm)(s, a); }
static Mask cores_of(Mask m) { Mask r = 0; for (int c = 0; c < C.ncpu; ++c) if (m >> c & 1) r |= core_mask(core_of(c)); return r; }
static int formula(Mask act) { int hw = C.ncpu / C.ncore; int n = O.tpc == hw ? popc(act) : popc(cores_of(act)) / hw * O.tpc; return n < 1 ? 1 : n; }
static int slots(Mask act) { int hw = C.ncpu / C.ncore; return popc(cores_of(act)) / hw * (O.tpc < hw ? O.tpc : hw); }
static Mask affinity(int i) { vn_thread &t = G.thr[tid[i]]; return t.affinity_set ? t.affinity[0] : G.proc[0].affinity[0]; }
static int curcpu(int i) { Mask a = affinity(i); int c = G.proc[0].curcpu; return a >> c & 1 ? c : __builtin_ctzl(a); }
static std::string oshow() { return fmt("threads=%d team=%d uses %s; ", X.nt, X.team, mstr(X.act).c_str()) + mshow(); }
static bool opt(const char *o) { return strstr(O.ompt, o) != nullptr; }
/* callbacks are called: the number of threads follows from the CPUs used */
static void count(const char *op) { if (X.nset && X.nt != formula(X.act)) bad("threads", "%s: %d threads, should be %d (%s)", op, X.nt, formula(X.act), oshow().c_str()); X.nset = 0; }
static void o_invariant() {
    invariant(); if (mc::is_bad() || !M.p[0].init) return;
    if (U.tm[0]) return;
    Mask extra = X.act & ~M.using_[0], miss = M.using_[0] & ~X.act;
    if (miss || (extra && !X.lent)) bad("mask", "the manager was told to use %s, the process holds %s (%s)", mstr(X.act).c_str(), mstr(M.using_[0]).c_str(), oshow().c_str());
    if (X.nt < 1) bad("threads", "%d threads (%s)", X.nt, oshow().c_str());
}
static void keep_one() {       /* outside of parallel regions only the CPU of the main thread is kept */
    if (!X.act) { X.nset = 0; return; }
    int c = curcpu(0); if (!(X.act >> c & 1)) c = __builtin_ctzl(X.act);
    for (int i = 0; i < C.ncpu; ++i) if ((X.act >> i & 1) && i != c) { m_lend(0, i); M.using_[0] &= ~(1UL << i); U.pend[0] &= ~(1UL << i); }
    X.act = 1UL << c; if (X.nt != 1) bad("threads", "%d threads after lending (%s)", X.nt, oshow().c_str()); X.nset = 0; mc::outcome("CPUs lent after a parallel region");
}
static void op_begin(int n, bool bnd) {
    want.clear(); X.nset = 0; memset(&pdata, 0, sizeof pdata); enc.value = 0; ompt_frame_t fr; memset(&fr, 0, sizeof fr); U.ncb[0] = 0;
    T(0, (((ompt_callback_parallel_begin_t)ocbs[ompt_callback_parallel_begin])(&enc, &fr, &pdata, 4, ompt_parallel_team | ompt_parallel_invoker_runtime, (void*)0x1000), 0)); if (mc::is_bad()) return;
    std::vector<Ev> got(U.got, U.got + U.ngot); int nset = X.nset; (void)nset;
    if (C.drom) { bool upd = M.d[0].dirty; if (U.ncb[0] != (upd ? 1 : 0) || (upd && U.cbmask[0] != M.d[0].fut)) { bad("process mask", "the set_process_mask callback was called %d times with %s, should be %d with %s", U.ncb[0], mstr(U.cbmask[0]).c_str(), upd, mstr(M.d[0].fut).c_str()); return; }
        U.ncb[0] = 0; U.cbmask[0] = 0; if (upd) { Mask m = M.d[0].cur = M.d[0].fut; M.d[0].dirty = false; M.p[0].mask = m; m_prio(0); m_new_mask(0, m); for (int c = 0; c < C.ncpu; ++c) if (!(m >> c & 1) && M.guest[c] != 0) M.using_[0] &= ~(1UL << c); mc::outcome("new process mask at a parallel region"); } }
    if (opt("borrow") && M.p[0].on) {
        for (int c = 0; c < C.ncpu; ++c) if (occupied(c) && M.guest[c] == 0 && m_return(0, c) == DLB_SUCCESS) mc::outcome("CPU returned at a parallel region");
        for (int c = 0; c < C.ncpu; ++c) if (U.pend[0] >> c & 1) { DI(0, c); U.pend[0] &= ~(1UL << c); mc::outcome("lost CPU left at a parallel region"); }
        Mask todo = 0; for (int c = 0; c < C.ncpu; ++c) if ((M.p[0].mask >> c & 1) && (idle(c) || occupied(c))) todo |= 1UL << c;
        for (int c = 0; c < C.ncpu; ++c) if (todo >> c & 1) { m_reclaim(0, c); mc::outcome("CPU reclaimed at a parallel region"); }
        /* how many it wants to borrow is up to the manager (at least one), which ones is not */
        Model m0 = M; std::vector<Ev> w0 = want; auto mine = [](const std::vector<Ev> &v) { std::vector<int> r; for (auto &e : v) if (e.p == 0) r.push_back(e.c * 2 + e.en); std::sort(r.begin(), r.end()); if (smt()) r.erase(std::unique(r.begin(), r.end()), r.end()); return r; };
        for (int k = 1; k <= C.ncpu; ++k) { M = m0; want = w0; m_borrow_n(0, k, sysmask()); if (mine(want) == mine(got)) break; if (k == C.ncpu) { M = m0; want = w0; m_borrow_n(0, 1, sysmask()); } }
        for (size_t i = w0.size(); i < want.size(); ++i) if (want[i].en) mc::outcome("CPU borrowed at a parallel region");
        X.lent = false;
    }
    settle(0, true); if (mc::is_bad()) return; count("parallel begin"); if (mc::is_bad()) return; o_invariant(); if (mc::is_bad()) return;
    if (!n) n = X.nt; if (n > NTH) n = NTH; X.team = n; if (!bnd) return; if (!X.act) { mc::outcome("region without CPUs"); return; }
    Mask used = 0; int nown = popc(M.p[0].mask & cores_of(X.act));
    for (int i = 0; i < n; ++i) {
        task[i].value = 0; T(i, (((ompt_callback_implicit_task_t)ocbs[ompt_callback_implicit_task])(ompt_scope_begin, &pdata, &task[i], n, i, ompt_task_implicit), 0)); if (mc::is_bad()) return;
        Mask a = affinity(i); if (popc(a) != 1) { bad("binding", "thread %d of %d is not bound to one CPU: %s (%s)", i, n, mstr(a).c_str(), oshow().c_str()); return; }
        if (a & ~cores_of(X.act)) { bad("binding", "thread %d of %d is bound to %s, which is not used (%s)", i, n, mstr(a).c_str(), oshow().c_str()); return; }
        if (n <= slots(X.act) && (used & a)) { bad("binding", "threads of a team of %d share CPU %s (%s)", n, mstr(a).c_str(), oshow().c_str()); return; }
        if (i < nown && i < slots(X.act & M.p[0].mask) && !(a & cores_of(M.p[0].mask))) { bad("binding", "thread %d of %d is bound to borrowed CPU %s, there are own ones (%s)", i, n, mstr(a).c_str(), oshow().c_str()); return; }
        used |= a;
    }
    mc::outcome(fmt("team of %d", n).c_str());
}
static void op_end() {
    want.clear(); X.nset = 0; T(0, (((ompt_callback_parallel_end_t)ocbs[ompt_callback_parallel_end])(&pdata, &enc, ompt_parallel_team | ompt_parallel_invoker_runtime, (void*)0x1000), 0)); if (mc::is_bad()) return;
    X.team = 0; if (opt("lend") && M.p[0].on) keep_one(); settle(0, false); X.nset = 0;
}
static void op_nested() {      /* regions inside regions are not managed: nothing changes */
    want.clear(); X.nset = 0; ompt_frame_t fr; memset(&fr, 0, sizeof fr); fr.exit_frame.ptr = (void*)0x77; ompt_data_t pd, t; memset(&pd, 0, sizeof pd); t.value = 0; Mask a0 = affinity(0);
    T(0, (((ompt_callback_parallel_begin_t)ocbs[ompt_callback_parallel_begin])(&task[0], &fr, &pd, 2, ompt_parallel_team | ompt_parallel_invoker_runtime, (void*)0x2000), 0)); if (mc::is_bad()) return;
    T(0, (((ompt_callback_implicit_task_t)ocbs[ompt_callback_implicit_task])(ompt_scope_begin, &pd, &t, 1, 0, ompt_task_implicit), 0)); if (mc::is_bad()) return;
    T(0, (((ompt_callback_parallel_end_t)ocbs[ompt_callback_parallel_end])(&pd, &task[0], ompt_parallel_team | ompt_parallel_invoker_runtime, (void*)0x2000), 0)); if (mc::is_bad()) return;
    if (X.nset || affinity(0) != a0) bad("nested", "a nested region changes the number of threads or the binding (%s)", oshow().c_str()); settle(0, false); mc::outcome("nested region");
}
static void op_into() {
    want.clear(); X.nset = 0; Mask tm = affinity(0), l = tm; if (C.keep) l &= ~core_mask(core_of(__builtin_ctzl(tm))); U.tm[0] = tm;
    T(0, shim_into(1)); if (mc::is_bad()) return;
    if (M.p[0].on) { U.rec[0] = U.pend[0]; for (int c = 0; c < C.ncpu; ++c) if (M.guest[c] == 0) U.rec[0] |= 1UL << c; U.rec[0] &= l & ~M.p[0].mask; Mask gone = l | (X.act & ~tm);
        for (int c = 0; c < C.ncpu; ++c) if (gone >> c & 1) m_lend(0, c); U.pend[0] &= ~gone; M.using_[0] &= tm; X.act &= tm; if (X.nt != 1) bad("threads", "%d threads in a blocking call (%s)", X.nt, oshow().c_str()); mc::outcome("blocking call"); }
    settle(0, false); X.nset = 0;
}
static void op_out() {
    want.clear(); X.nset = 0; Mask l = U.tm[0]; if (C.keep) l &= ~core_mask(core_of(__builtin_ctzl(l))); Mask rec = U.rec[0] & ~M.p[0].mask; U.rec[0] = 0;
    Mask tm = U.tm[0]; U.tm[0] = 0; T(0, shim_out(1)); if (mc::is_bad()) return;
    if (M.p[0].on) { Mask own = l & M.p[0].mask; std::vector<int> ol; for (int c = 0; c < C.ncpu; ++c) if (own >> c & 1) ol.push_back(c); m_list(0, ol, nullptr, m_acquire); M.using_[0] |= own; std::vector<Ev> w; for (auto &e : want) if (!e.en || !(l >> e.c & 1)) w.push_back(e);
        for (int c = 0; c < C.ncpu; ++c) if (rec >> c & 1) { if (M.guest[c] != 0) m_borrow(0, c); if (M.guest[c] == 0) M.using_[0] |= 1UL << c; else U.pend[0] |= 1UL << c; }
        want = w; X.act |= tm & M.p[0].mask & M.using_[0];
        Mask todo = 0; for (int c = 0; c < C.ncpu; ++c) if ((M.p[0].mask >> c & 1) && (idle(c) || occupied(c))) todo |= 1UL << c; for (int c = 0; c < C.ncpu; ++c) if (todo >> c & 1) m_reclaim(0, c);
        X.lent = false; }
    bool on = M.p[0].on; settle(0, true); if (mc::is_bad() || !on) return;
    int w = O.level1 ? O.level1 : formula(X.act); if (X.nt != w) bad("threads", "%d threads after a blocking call, should be %d (%s)", X.nt, w, oshow().c_str()); X.nset = 0; mc::outcome("out of a blocking call");
}
static void op_lend() {
    want.clear(); X.nset = 0; long r = T(0, DLB_Lend()); if (mc::is_bad()) return; check_rc("Lend", r, M.p[0].on ? DLB_SUCCESS : DLB_ERR_DISBLD); if (!M.p[0].on) return;
    for (int c = 0; c < C.ncpu; ++c) m_lend(0, c); M.using_[0] = 0; U.pend[0] = 0; X.act = 1UL << curcpu(0); X.lent = true; if (X.nt != 1) bad("threads", "%d threads after DLB_Lend", X.nt); settle(0, false); X.nset = 0; mc::outcome("DLB_Lend");
}
static void op_fini() { want.clear(); tool->finalize(nullptr); }
static void orun(Cfg c, OCfg oc, unsigned sel1, unsigned sel0, int depth, const std::vector<std::string> &prefix = {}) {
    C = c; O = oc; memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; want.clear(); memset(ocbs, 0, sizeof ocbs);
    for (int i = 0; i < MAXC; ++i) M.owner[i] = M.guest[i] = NOB;
    for (int p = 0; p < C.np; ++p) vn_spawn(1001 + p);
    if (C.drom) { while (vn_spawn(1100 + G.nprocs) < ADM) {} topo(ADM, C.ncpu, C.ncore, C.nnode); }
    tid[0] = vn_main_thread(0); for (int i = 1; i < NTH; ++i) tid[i] = vn_thread_extra(0);
    /* the OpenMP process */
    topo(0, C.ncpu, C.ncore, C.nnode); G.proc[0].affinity[0] = C.mask[0]; G.proc[0].curcpu = O.cur >= 0 ? O.cur : __builtin_ctzl(C.mask[0]);
    std::string a = fmt("--lewi --ompt --ompt-thread-manager=omp5 --lewi-ompt=%s --quiet --verbose-format= --lewi-affinity=%s", O.ompt, C.aff); if (C.drom) a += " --drom"; if (C.keep) a += " --lewi-keep-one-cpu";
    vn_setenv(0, "DLB_ARGS", a.c_str()); vn_setenv(0, "OMP_WAIT_POLICY", "passive"); if (O.places) vn_setenv(0, "OMP_PLACES", O.places); if (O.nthreads) vn_setenv(0, "OMP_NUM_THREADS", O.nthreads);
    int hw = C.ncpu / C.ncore, total = 0; if (O.nthreads) { total = 1; for (const char *s = O.nthreads; s; s = strchr(s, ',') ? strchr(s, ',') + 1 : nullptr) total *= atoi(s); O.level1 = atoi(O.nthreads); }
    int ncores = popc(cores_of(C.mask[0])) / hw; O.tpc = O.places && !strcmp(O.places, "cores") ? 1 : O.places && !strcmp(O.places, "threads") ? hw : total ? (total / ncores > 1 ? total / ncores : 1) : 1;
    X.nt = O.level1 ? O.level1 : popc(C.mask[0]);
    for (int k = 0; k < C.ncpu; ++k) { M.st[k] = DIS; if (C.mask[0] >> k & 1) { M.owner[k] = M.guest[k] = 0; M.st[k] = BUSY; } }
    M.p[0].init = M.p[0].on = true; M.p[0].mask = C.mask[0]; m_prio(0); M.using_[0] = X.act = X.own = C.mask[0]; if (C.drom) M.d[0].cur = M.d[0].fut = C.mask[0];
    T(0, (tool = ompt_start_tool(201811, "LLVM"), tool->initialize(olookup, 0, nullptr))); if (mc::is_bad()) return;
    if (opt("lend")) keep_one();
    auto hook = [&](dlb_callbacks_t w, dlb_callback_t *f, dlb_callback_t mine) { void *arg; T(0, DLB_CallbackGet(w, f, &arg)); if (!*f) bad("harness", "no callback"); T(0, DLB_CallbackSet(w, mine, arg)); };
    hook(dlb_callback_enable_cpu, &f_en, (dlb_callback_t)o_en); hook(dlb_callback_disable_cpu, &f_dis, (dlb_callback_t)o_dis); hook(dlb_callback_enable_cpu_set, &f_ens, (dlb_callback_t)o_ens); hook(dlb_callback_disable_cpu_set, &f_diss, (dlb_callback_t)o_diss); hook(dlb_callback_set_process_mask, &f_pm, (dlb_callback_t)o_pm);
    X.nset = 0;
    for (int p = 1; p < C.np && !mc::is_bad(); ++p) do_init(p, true);
    std::vector<mc::Op> ops, all; build_ops(all, sel1); std::vector<mc::Op> all0; build_ops(all0, sel0);
    auto serial = []{ return live(0) && !X.team; };
    ops.push_back({"P0.parallel", serial, []{ op_begin(0, true); }}); ops.push_back({"P0.parallel num_threads(1)", serial, []{ op_begin(1, true); }});
    ops.push_back({"P0.end parallel", []{ return live(0) && X.team; }, op_end}); ops.push_back({"P0.nested parallel", []{ return live(0) && X.team; }, op_nested});
    if (sel0 & 2048) { ops.push_back({"P0.into MPI", serial, op_into}); ops.push_back({"P0.out of MPI", []{ return U.tm[0] != 0; }, op_out}); }
    if (sel0 & 1) ops.push_back({"P0.Lend", serial, op_lend});
    for (auto &o : all) if (o.name.compare(0, 3, "P0.")) ops.push_back(o);
    for (auto &o : all0) if (!o.name.compare(0, 3, "P0.") && o.name.find("MPI") == std::string::npos && o.name.find("Lend") == std::string::npos) { auto en = o.enabled; auto rn = o.run; ops.push_back({o.name, [=]{ return en() && !X.team; }, [=]{ X.nset = 0; rn(); if (!mc::is_bad()) count("operation"); }}); }
    for (auto &n : prefix) { bool f = false; for (auto &o : ops) if (o.name == n && !mc::is_bad()) { o.run(); if (!mc::is_bad()) o_invariant(); f = true; } if (!f) bad("harness", "prefix %s", n.c_str()); }
    mc::Limits l; l.depth = depth; l.max_states = 4000000;
    mc::explore_ops(ops, []{ o_invariant(); if (!mc::is_bad()) probe(); }, l);
}
void mc_register() {
    enum { LEND = 1, RECL = 2, ACQ = 4, BOR = 8, RET = 16, MISC = 32, LIFE = 64, MASKS = 128, DROM = 256, CHECK = 512, RANGE = 1024, MPI = 2048 };
    auto J = [&](const char *name, Cfg c, OCfg o, unsigned s1, unsigned s0, int d, std::vector<std::string> prefix = {}) { mc::job(name, [=]{ orun(c, o, s1, s0, d + mc::level, prefix); }, 8); };
    Cfg a = {}; a.np = 2; a.ncpu = 4; a.ncore = 4; a.nnode = 1; a.mask[0] = 3; a.mask[1] = 12; a.aff = "auto"; a.initall = true;
    OCfg b = {}; b.ompt = "borrow"; b.cur = -1; OCfg l = b; l.ompt = "borrow:lend"; OCfg n = b; n.ompt = "none"; OCfg ll = b; ll.ompt = "lend";
    J("borrow", a, b, LEND|RECL|BOR|RET, 0, 5); J("borrow.api", a, b, LEND|BOR|RET, LEND|RECL|BOR|RET, 5); J("lend", a, l, LEND|RECL|BOR|RET, 0, 5); J("lend.api", a, l, LEND|BOR|RET, LEND|RECL|BOR, 4); J("lendonly", a, ll, LEND|RECL|BOR, 0, 5); J("none", a, n, LEND|BOR, RECL|BOR|RET, 5);
    J("borrow.mpi", a, b, LEND|RECL|BOR|RET, MPI, 5); J("lend.mpi", a, l, LEND|RECL|BOR|RET, MPI, 5); J("none.mpi", a, n, LEND|BOR, MPI, 5);
    J("borrow.misc", a, b, LEND|BOR, MISC, 5); J("lend.misc", a, l, LEND|BOR, MISC, 5);
    OCfg nt = b; nt.nthreads = "2"; J("borrow.nt2.mpi", a, nt, LEND|RECL|BOR|RET, MPI, 5); nt.nthreads = "2,2"; J("borrow.nt22.mpi", a, nt, LEND|RECL|BOR, MPI, 5);
    OCfg cu = b; cu.cur = 1; J("borrow.cur.mpi", a, cu, LEND|BOR, MPI|LEND, 5); cu.ompt = "borrow:lend"; J("lend.cur.mpi", a, cu, LEND|BOR, MPI|LEND, 5);
    Cfg k = a; k.keep = true; J("borrow.keep.mpi", k, b, LEND|BOR, MPI, 5);
    Cfg s = a; s.ncore = 2; J("borrow.smt", s, b, LEND|BOR|RECL, MPI, 4); OCfg pc = b; pc.places = "cores"; J("borrow.smt.cores", s, pc, LEND|BOR|RECL, MPI, 4); pc.places = "threads"; J("borrow.smt.threads", s, pc, LEND|BOR|RECL, MPI, 4); pc.ompt = "borrow:lend"; J("lend.smt.threads", s, pc, LEND|BOR|RECL, 0, 4);
    Cfg d = a; d.drom = true; d.ncpu = d.ncore = 3; d.mask[1] = 4; J("borrow.drom", d, b, LEND|BOR|RECL|RET|DROM, 0, 4); J("lend.drom", d, l, LEND|BOR|DROM, 0, 4); J("borrow.drom.mpi", d, b, LEND|BOR|DROM, MPI, 4);
    Cfg e = a; e.np = 3; e.mask[0] = 1; e.mask[1] = 6; e.mask[2] = 8; J("borrow.3p", e, b, LEND|BOR|RECL, 0, 5);
    J("borrow.borrowed", a, b, LEND|RECL|BOR|RET, MPI|LEND, 4, {"P1.Lend", "P0.parallel", "P0.end parallel", "P0.parallel"});
}
