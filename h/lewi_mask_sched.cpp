/* LeWI with masks: every interleaving, with a bounded number of preemptions, of 2-3 processes that lend, reclaim, borrow and acquire
 * CPUs at the same time, and of their helper threads. Afterwards every CPU has at most one holder, each process was told about what it
 * holds, and everybody can get back what it owns. */
#include "sched.h"
using mc::bad; using mc::fmt; using namespace sc;
extern "C" { long shim_into(long); long shim_out(long); }
enum { MAXP = 3 };
static int np, ncpu; static Mask own[MAXP]; static bool async; static char args[96];
/* use: the CPUs the process uses; en, dis: those it was ever told to use or leave (or left by itself) during the run */
static struct User { Mask use[MAXP], en[MAXP], dis[MAXP]; int nen[MAXP][8]; bool init[MAXP], max; int err; Mask dbl[MAXP]; } U;
static void cb_en(int c, void*) { int p = G.cur_proc; U.use[p] |= 1UL << c; U.en[p] |= 1UL << c; }
static void cb_dis(int c, void*) { int p = G.cur_proc; U.use[p] &= ~(1UL << c); U.dis[p] |= 1UL << c; }
static void leave(int p, Mask m) { U.use[p] &= ~m; U.dis[p] |= m; }
static void o_lend(int p, int) { leave(p, (1UL << ncpu) - 1); DLB_Lend(); }
static void o_lendc(int p, int c) { leave(p, 1UL << c); DLB_LendCpu(c); }
static void o_reclaim(int, int) { DLB_Reclaim(); }
static void o_reclaimc(int, int c) { DLB_ReclaimCpu(c); }
static void o_borrow(int, int n) { if (n) DLB_BorrowCpus(n); else DLB_Borrow(); }
static void o_acquire(int, int n) { DLB_AcquireCpus(n); }
static void o_acqc(int, int c) { DLB_AcquireCpu(c); }
static void o_borc(int, int c) { DLB_BorrowCpu(c); }
static void o_retc(int, int c) { DLB_ReturnCpu(c); }
static void o_lendm(int p, int m) { m &= (1 << ncpu) - 1; leave(p, m); cpu_set_t s = to_set(m); DLB_LendCpuMask(&s); }
static void o_reclm(int, int m) { cpu_set_t s = to_set(m); DLB_ReclaimCpuMask(&s); }
static void o_recln(int, int n) { DLB_ReclaimCpus(n); }
static void o_acqm(int, int m) { cpu_set_t s = to_set(m); DLB_AcquireCpuMask(&s); }
static void o_acqin(int, int m) { cpu_set_t s = to_set(m); DLB_AcquireCpusInMask(1, &s); }
static void o_borm(int, int m) { cpu_set_t s = to_set(m); DLB_BorrowCpuMask(&s); }
static void o_borin(int, int m) { cpu_set_t s = to_set(m); DLB_BorrowCpusInMask(1, &s); }
static void o_retm(int, int m) { cpu_set_t s = to_set(m); DLB_ReturnCpuMask(&s); }
static void o_check(int p, int c) { if (DLB_CheckCpuAvailability(c) == DLB_SUCCESS) { U.use[p] |= 1UL << c; U.en[p] |= 1UL << c; } }
static void o_max(int, int n) { U.max = true; DLB_SetMaxParallelism(n); }
static void o_return(int, int) { DLB_Return(); }
static void o_disable(int p, int) { leave(p, ~own[p]); DLB_Disable(); }
static void o_init(int p, int) { mu_testing_set_sys(ncpu, ncpu, 1); cpu_set_t s = to_set(own[p]); U.use[p] = own[p]; U.en[p] |= own[p]; int e = DLB_Init(0, &s, args); if (e == DLB_SUCCESS) { U.init[p] = true; DLB_CallbackSet(dlb_callback_enable_cpu, (dlb_callback_t)cb_en, nullptr); DLB_CallbackSet(dlb_callback_disable_cpu, (dlb_callback_t)cb_dis, nullptr); } else U.err = e; }
static void o_fin(int p, int) { leave(p, ~0UL); DLB_Finalize(); U.init[p] = false; U.use[p] = 0; }
static Step Lend{o_lend, 0, "Lend"}, Recl{o_reclaim, 0, "Reclaim"}, Bor{o_borrow, 0, "Borrow"}, Acq1{o_acquire, 1, "AcquireCpus(1)"}, Acq2{o_acquire, 2, "AcquireCpus(2)"}, Ret{o_return, 0, "Return"}, Dis{o_disable, 0, "Disable"}, Init{o_init, 0, "Init"}, Fin{o_fin, 0, "Finalize"};
static const char *nm(const char *f, int c) { static char b[8][8][16]; static int k; char *s = b[k++ / 8 % 8][k % 8]; snprintf(s, 16, f, c); return strdup(s); }
static Step LendC(int c) { return {o_lendc, c, nm("LendCpu(%d)", c)}; }
static Step ReclC(int c) { return {o_reclaimc, c, nm("ReclCpu(%d)", c)}; }
static Step S(void (*f)(int, int), int a, const char *t) { return {f, a, nm(t, a)}; }
static Step AcqC(int c) { return {o_acqc, c, nm("AcqCpu(%d)", c)}; }
static std::string show() { std::string s; for (int p = 0; p < np; ++p) s += fmt("P%d%s uses %s, owns %s; ", p, U.init[p] ? "" : " (off)", mstr(U.use[p]).c_str(), mstr(own[p]).c_str()); return s; }
static void settle() { if (async && !mc::is_bad()) vn_run_helpers(-1); }
static void at_end(bool dead) {
    if (dead) { for (int t = 0; t < VN_MAXTHR; ++t) if (G.thr[t].entry == body && G.thr[t].state != VT_FREE && G.thr[t].state != VT_DONE && G.thr[t].state != VT_DEAD) { bad("deadlock", "thread %d of P%d is blocked for ever (state %d)", t, G.thr[t].proc, G.thr[t].state); return; } }
    settle(); if (U.max) { for (int p = 0; p < np; ++p) if (U.init[p]) IN(p, DLB_UnsetMaxParallelism()); settle(); } if (U.err) { bad("init", "DLB_Init returned %s", errname(U.err)); return; }
    int n = 0; for (int p = 0; p < np; ++p) if (U.init[p]) { ++n; IN(p, DLB_Enable()); settle(); if (mc::is_bad()) return; }
    if (!n) { if (vn_shm_count()) bad("leftover", "%d shared memories left", vn_shm_count()); return; }
    if (async) {
        Mask hold[MAXP] = {0}; vn_snap s; memset(&s, 0, sizeof s); vn_save(&s, 0);
        for (int c = 0; c < ncpu; ++c) for (int p = 0; p < np; ++p) if (U.init[p]) { long e = IN(p, DLB_AcquireCpu(c)); if (mc::is_bad()) return; vn_restore(&s); if (e == DLB_NOUPDT) hold[p] |= 1UL << c; }
        vn_snap_free(&s);
        for (int p = 0; p < np; ++p) for (int q = 0; q < p; ++q) if (hold[p] & hold[q]) { bad("shared", "P%d and P%d both hold %s", q, p, mstr(hold[p] & hold[q]).c_str()); return; }
        for (int p = 0; p < np; ++p) if (U.init[p]) { Mask miss = hold[p] & ~U.use[p], extra = U.use[p] & ~hold[p];
            if ((miss & ~U.en[p] & ~own[p]) || (miss & ~U.en[p])) { bad("told", "P%d holds %s and was not told (%s)", p, mstr(miss & ~U.en[p]).c_str(), show().c_str()); return; }
            if (extra & ~U.dis[p]) { bad("told", "P%d uses %s, it does not hold it any more and was not told (%s)", p, mstr(extra & ~U.dis[p]).c_str(), show().c_str()); return; }
            if (miss | extra) { bad("overtaken", "P%d uses %s, holds %s: it was told both things in the wrong order", p, mstr(U.use[p]).c_str(), mstr(hold[p]).c_str()); return; } }
        mc::outcome("holders checked");
    } else {
        for (int p = 0; p < np; ++p) for (int q = 0; q < p; ++q) if (U.init[p] && U.init[q]) { Mask b = U.use[p] & U.use[q] & ~own[p] & ~own[q]; if (b) { bad("shared", "P%d and P%d both use %s", q, p, mstr(b).c_str()); return; } }
        for (int p = 0; p < np; ++p) if (U.init[p]) { Mask was = U.use[p]; long e = IN(p, DLB_Return()); if (mc::is_bad()) return; (void)was; (void)e; }
        for (int p = 0; p < np; ++p) for (int q = 0; q < p; ++q) if (U.init[p] && U.init[q] && (U.use[p] & U.use[q])) { bad("shared", "P%d and P%d both use %s after returning", q, p, mstr(U.use[p] & U.use[q]).c_str()); return; }
    }
    for (int k = 0; k < 2 && !mc::is_bad(); ++k) for (int p = 0; p < np; ++p) if (U.init[p]) { if (async) IN(p, DLB_AcquireCpus(DLB_DELETE_REQUESTS)); IN(p, DLB_Reclaim()); settle(); if (!async) for (int q = 0; q < np; ++q) if (U.init[q]) IN(q, DLB_Return()); if (mc::is_bad()) return; }
    for (int p = 0; p < np; ++p) if (U.init[p] && ((U.use[p] & own[p]) != own[p])) { bad("reclaim", "after everyone reclaimed, P%d does not use its CPUs (%s)", p, show().c_str()); return; }
    for (int p = 0; p < np; ++p) for (int q = 0; q < np; ++q) if (p != q && U.init[p] && U.init[q] && (U.use[p] & own[q])) { bad("reclaim", "after everyone reclaimed, P%d still uses CPUs of P%d (%s)", p, q, show().c_str()); return; }
    /* and they can be lent again */
    int a = -1, b = -1; for (int p = 0; p < np; ++p) if (U.init[p]) { if (a < 0) a = p; else if (b < 0) b = p; }
    if (b < 0) return;
    if (async) for (int p = 0; p < np; ++p) if (U.init[p]) IN(p, DLB_AcquireCpus(DLB_DELETE_REQUESTS));
    U.use[a] = 0; IN(a, DLB_Lend()); settle(); if (async) IN(b, DLB_AcquireCpus(popc(own[a]))); else IN(b, DLB_Borrow()); settle();
    if (!mc::is_bad() && (own[a] & ~(U.use[b] | U.use[a] | U.use[MAXP-1]))) bad("lost", "P%d lent %s, P%d could not get all (%s)", a, mstr(own[a]).c_str(), b, show().c_str());
}
struct Cfg { int np, ncpu; Mask own[MAXP]; bool async; };
static void scen(const Cfg &c, int start_init, const std::vector<std::vector<Step>> &th, int pre, int lent, Mask borrowed = 0, const std::vector<int> &procs = {}) {
    np = c.np; ncpu = c.ncpu; memcpy(own, c.own, sizeof own); async = c.async; snprintf(args, sizeof args, "--lewi --quiet%s", async ? " --mode=async" : "");
    clear(); for (size_t i = 0; i < th.size(); ++i) if (th[i].size()) thread(procs.empty() ? i : procs[i], th[i]);
    if (!mc::scenario(name() + fmt(" lent %d borrowed %lx", lent, borrowed))) return;
    memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; vn_reset(); vn_tick = 0; vn_sysconf_cpus = ncpu;
    for (int p = 0; p < np; ++p) vn_spawn(1001 + p);
    for (int p = 0; p < np; ++p) if (start_init >> p & 1) { in_proc(p, [p]() -> long { o_init(p, 0); return 0; }); if (mc::is_bad()) return; }
    for (int p = 0; p < np; ++p) if (lent >> p & 1) { in_proc(p, [p]() -> long { o_lend(p, 0); return 0; }); vn_run_helpers(-1); }
    for (int p = 0; p < np; ++p) if (borrowed >> p & 1) { IN(p, DLB_Borrow()); vn_run_helpers(-1); }
    memset(U.dis, 0, sizeof U.dis); memset(U.en, 0, sizeof U.en); for (int p = 0; p < np; ++p) U.en[p] = U.use[p], U.dis[p] = ~U.use[p];
    start();
    mc::Sched s; s.preemptions = pre; s.at_end = at_end; s.max_states = 400000;
    mc::explore_schedules(s);
}
typedef std::vector<std::vector<Step>> Scripts;
static Scripts seqs(const std::vector<Step> &ops, int len) { Scripts r; if (len == 1) for (auto &a : ops) r.push_back({a}); else for (auto &a : ops) for (auto &b : ops) r.push_back({a, b}); return r; }
static void pairs(const Cfg &c, const std::vector<Step> &ops, int len, int pre, int lent, Mask bor = 0) {
    Scripts s = seqs(ops, len);
    for (size_t i = 0; i < s.size(); ++i) for (size_t j = lent || bor ? 0 : i; j < s.size(); ++j) scen(c, 3, {s[i], s[j]}, pre, lent, bor);
}
static void triples(const Cfg &c, const std::vector<Step> &o0, const std::vector<Step> &o1, const std::vector<Step> &o2, int pre, int lent, Mask bor = 0) {
    for (auto &a : o0) for (auto &b : o1) for (auto &d : o2) scen(c, 7, {{a}, {b}, {d}}, pre, lent, bor);
}
static void life(const Cfg &c, const std::vector<Step> &ops, int pre) {
    for (auto &a : ops) for (auto &b : ops) { scen(c, 0, {{Init, a}, {Init, b}}, pre, 0); scen(c, 1, {{a, Fin}, {Init, b}}, pre, 0); scen(c, 3, {{a, Fin}, {b}}, pre, 0); scen(c, 3, {{a, Fin}, {b, Fin}}, pre, 0); }
}
void mc_register() {
    auto J = [](const std::string &n, std::function<void()> f) { mc::job(n, f, 10); };
    int x = mc::level; Cfg a{2, 4, {3, 12}, false}, b{2, 4, {3, 12}, true}, k{3, 3, {1, 2, 4}, true}, kp = k; kp.async = false;
    J("poll.pairs1", [=]{ std::vector<Step> o{Lend, Recl, Bor, Ret, Dis, LendC(1), ReclC(1), AcqC(2)}; pairs(a, o, 1, 3 + x, 0); pairs(a, o, 1, 3 + x, 1); pairs(a, o, 1, 3 + x, 1, 2); });
    J("poll.pairs2", [=]{ pairs(a, {Lend, Recl, Bor, Ret}, 2, 2 + x, 0); });
    J("poll.triples", [=]{ triples(kp, {Lend, Recl, Bor}, {Bor, Ret, Lend}, {Bor, Recl, Lend}, 2 + x, 1, 2); });
    J("poll.life", [=]{ life(a, {Lend, Recl, Bor}, 1 + x); });
    std::vector<Step> o{Lend, Recl, Bor, Acq2, Dis, LendC(1), ReclC(1), AcqC(2)};
    std::vector<Step> all{Lend, Recl, Bor, Ret, Dis, Acq1, LendC(1), ReclC(1), AcqC(1), S(o_borc, 0, "BorCpu(%d)"), S(o_borc, 2, "BorCpu(%d)"), S(o_retc, 0, "RetCpu(%d)"), S(o_lendm, 9, "LendMask(%d)"), S(o_reclm, 3, "ReclMask(%d)"),
        S(o_recln, 1, "ReclCpus(%d)"), S(o_acqm, 13, "AcqMask(%d)"), S(o_acqin, 3, "Acq1In(%d)"), S(o_borm, 13, "BorMask(%d)"), S(o_borin, 3, "Bor1In(%d)"), S(o_retm, 1, "RetMask(%d)"), S(o_max, 1, "MaxPar(%d)"), S(o_check, 0, "Check(%d)")};
    for (int m = 0; m < 2; ++m) for (int i = 0; i < 4; ++i) J(fmt("%s.ops.%d", m ? "async" : "poll", i), [=]{ int n = 0; for (auto &p : all) for (auto &q : all) if (n++ % 4 == i) { if (&p <= &q) scen(m ? b : a, 3, {{p}, {q}}, 1 + x, 0); scen(m ? b : a, 3, {{p}, {q}}, 1 + x, 1); scen(m ? b : a, 3, {{p}, {q}}, 1 + x, 1, 2); } });
    for (int m = 0; m < 2; ++m) J(fmt("%s.third", m ? "async" : "poll"), [=]{ Cfg c = m ? k : kp; for (size_t i = 0; i < all.size(); ++i) for (size_t j = i; j < all.size(); ++j) for (int bor = 0; bor < 3; bor += 2) scen(c, 7, {{all[i]}, {all[j]}}, 1 + x, 1, bor, {1, 2}); });
    J("async.pairs1", [=]{ pairs(b, o, 1, 1 + x, 0); }); J("async.pairs1.lent", [=]{ pairs(b, o, 1, 1 + x, 1); }); J("async.pairs1.borrowed", [=]{ pairs(b, o, 1, 1 + x, 1, 2); });
    for (int i = 0; i < 4; ++i) J(fmt("async.pairs2.%d", i), [=]{ Scripts s = seqs({Lend, Recl, Acq2}, 2); int k = 0; for (size_t p = 0; p < s.size(); ++p) for (size_t q = p; q < s.size(); ++q) if (k++ % 4 == i) scen(b, 3, {s[p], s[q]}, 1 + x, 0); });
    J("async.triples", [=]{ triples(k, {Recl, Lend}, {Lend, LendC(0), Acq1}, {AcqC(0), Acq1, Recl}, 1 + x, 1, 2); });
    for (int i = 0; i < 6; ++i) J(fmt("async.requests.%d", i), [=]{ Step l[] = {Lend, Recl}, r[] = {Acq1, AcqC(0), AcqC(1)}; triples(k, {l[i % 2]}, {Acq1, AcqC(0)}, {r[i / 2]}, 1 + x, 0); });
    J("async.ping", [=]{ scen(k, 7, {{Recl, Lend}, {LendC(0)}, {AcqC(0)}}, 1 + x, 1, 2); scen(k, 7, {{Recl, Lend}, {LendC(0), AcqC(0)}, {}}, 2 + x, 1, 2); });
    J("async.return", [=]{ scen(k, 7, {{Recl}, {Fin}}, 1 + x, 1, 2); scen(k, 7, {{Recl, Lend}, {Fin}}, 1 + x, 1, 2); scen(k, 7, {{Recl}, {Dis}}, 1 + x, 1, 2); scen(k, 7, {{Recl}, {LendC(0)}}, 1 + x, 1, 2); scen(k, 7, {{Fin}, {Fin}}, 1 + x, 1, 2); scen(k, 7, {{Fin}, {Lend}}, 1 + x, 1, 2); });
    J("async.threads", [=]{ for (auto &s : std::vector<std::vector<Step>>{{LendC(0)}, {Recl}, {Dis}}) scen(k, 7, {{Recl}, s, {LendC(0)}}, 1 + x, 1, 2, {0, 0, 1}); });
    J("async.life", [=]{ life(b, {Lend, Recl, Acq2}, x); });
}
