/* Classic LeWI (CPU counts): every interleaving, with a bounded number of preemptions, of 2-3 processes that operate
 * concurrently on the shared count of idle CPUs (and of the helper threads in the asynchronous mode).
 * No CPU may be lost or duplicated, and nobody may be left with another number of threads than its share. */
#include "sched.h"
using mc::bad; using mc::fmt; using namespace sc;
extern "C" { long shim_into(long); long shim_out(long); }
enum { MAXP = 3 };
static int np, ncpu, def[MAXP]; static bool async, greedy; static char args[96];
static struct User { int seen[MAXP], init[MAXP], err[MAXP], told[MAXP]; } U;     /* told: bit n: was told to use n CPUs */
static void cb_num(int n, void*) { int p = G.cur_proc; U.seen[p] = n; U.told[p] |= 1 << n; }
static void o_lend(int, int) { DLB_Lend(); }
static void o_lendn(int, int n) { DLB_LendCpus(n); }
static void o_reclaim(int, int) { DLB_Reclaim(); }
static void o_borrow(int, int n) { if (n) DLB_BorrowCpus(n); else DLB_Borrow(); }
static void o_acquire(int, int n) { DLB_AcquireCpus(n); }
static void o_into(int, int) { shim_into(1); }
static void o_out(int, int) { shim_out(1); }
static void o_disable(int, int) { DLB_Disable(); }
static void o_enable(int, int) { DLB_Enable(); }
static void o_init(int p, int) { mu_testing_set_sys(ncpu, ncpu, 1); U.seen[p] = def[p]; U.told[p] |= 1 << def[p]; int e = DLB_Init(def[p], nullptr, args); if (e == DLB_SUCCESS) { U.init[p] = 1; DLB_CallbackSet(dlb_callback_set_num_threads, (dlb_callback_t)cb_num, nullptr); } else U.err[p] = e; }
static void o_fin(int p, int) { DLB_Finalize(); U.init[p] = 0; }
static Step Lend{o_lend, 0, "Lend"}, Lend1{o_lendn, 1, "LendCpus(1)"}, Recl{o_reclaim, 0, "Reclaim"}, Bor{o_borrow, 0, "Borrow"}, Bor1{o_borrow, 1, "BorrowCpus(1)"}, Acq1{o_acquire, 1, "AcquireCpus(1)"}, Acq2{o_acquire, 2, "AcquireCpus(2)"},
    Into{o_into, 0, "Into"}, Out{o_out, 0, "Out"}, Dis{o_disable, 0, "Disable"}, En{o_enable, 0, "Enable"}, Init{o_init, 0, "Init"}, Fin{o_fin, 0, "Finalize"};
static std::string show() { std::string s; for (int p = 0; p < np; ++p) s += fmt("P%d:%s%d/%d ", p, U.init[p] ? "" : "off ", U.seen[p], def[p]); return s; }
static void at_end(bool dead) {
    if (dead) { bool real = false; for (int t = 0; t < VN_MAXTHR; ++t) if (G.thr[t].entry == body && G.thr[t].state != VT_FREE && G.thr[t].state != VT_DONE && G.thr[t].state != VT_DEAD) real = true; if (real) { bad("deadlock", "the processes are blocked for ever"); return; } }
    auto settle = [] { if (async && !mc::is_bad()) vn_run_helpers(-1); };
    settle();
    int tot = 0, a = -1, b = -1, n = 0; for (int p = 0; p < np; ++p) { if (U.err[p]) { bad("init", "DLB_Init returned %s", errname(U.err[p])); return; } if (U.init[p]) { tot += def[p]; ++n; if (a < 0) a = p; else if (b < 0) b = p; } }
    if (n == 0) { if (vn_shm_count()) bad("leftover", "%d shared memories left", vn_shm_count()); return; }
    if (async) {        /* what the processes were told must be what they hold: read what they hold by lending and borrowing back one CPU */
        for (int p = 0; p < np; ++p) if (U.init[p]) { IN(p, DLB_Enable()); settle(); IN(p, DLB_AcquireCpus(DLB_DELETE_REQUESTS)); settle(); }
        int sum = 0, told[MAXP] = {0}, real[MAXP] = {0};
        for (int p = 0; p < np; ++p) if (U.init[p]) {
            told[p] = U.seen[p]; User keep = U;
            long e = IN(p, DLB_LendCpus(1)); settle(); if (e == DLB_SUCCESS) { IN(p, DLB_BorrowCpus(1)); settle(); real[p] = U.seen[p]; U = keep; U.seen[p] = real[p]; } else if (e == DLB_ERR_PERM) real[p] = 0; else { bad("result", "LendCpus(1) returned %s", errname(e)); return; }
            IN(p, DLB_AcquireCpus(DLB_DELETE_REQUESTS)); sum += real[p];
        }
        IN(a, DLB_Borrow()); settle(); sum += U.seen[a] - (real[a] ? real[a] : told[a]); if (!real[a] && U.seen[a] == 1) sum += 0;
        for (int p = 0; p < np; ++p) if (U.init[p] && told[p] != real[p] && !(told[p] == 1 && real[p] == 0)) {
            if (U.told[p] >> real[p] & 1) bad("overtaken", "P%d holds %d CPUs and runs %d threads: it was told %d but an older count was applied later", p, real[p], told[p], real[p]);
            else bad("threads", "P%d holds %d CPUs, it was never told so and runs %d threads", p, real[p], told[p]);
        }
        if (sum != tot && real[a]) bad("conservation", "%d CPUs in use or idle, the processes brought %d (%s)", sum, tot, show().c_str());
        if (mc::is_bad()) return;
    }
    for (int k = 0; k < 2 && !mc::is_bad(); ++k) for (int p = 0; p < np; ++p) if (U.init[p]) { if (!async) IN(p, DLB_Enable()); IN(p, DLB_Reclaim()); settle(); }
    int sum = 0; for (int p = 0; p < np; ++p) if (U.init[p]) sum += U.seen[p];
    if (greedy) { if (sum != tot) bad("conservation", "%d CPUs in use after everyone reclaimed, the processes brought %d (%s)", sum, tot, show().c_str()); }
    else for (int p = 0; p < np; ++p) if (U.init[p] && U.seen[p] != def[p]) { bad("reclaim", "after everyone reclaimed, P%d uses %d CPUs, owns %d (%s)", p, U.seen[p], def[p], show().c_str()); return; }
    if (!greedy && b >= 0) {
        int g = U.seen[b]; if (async) IN(a, DLB_AcquireCpus(DLB_DELETE_REQUESTS)); for (int p = 0; async && p < np; ++p) if (U.init[p]) IN(p, DLB_AcquireCpus(DLB_DELETE_REQUESTS));
        IN(a, DLB_Lend()); settle(); IN(b, DLB_Borrow()); settle();
        if (U.seen[b] - g != def[a] - 1) bad("conservation", "everyone reclaimed, P%d lent %d CPUs, P%d could borrow %d", a, def[a] - 1, b, U.seen[b] - g);
    }
}
struct Cfg { int np, ncpu, def[MAXP]; bool async, greedy; };
static void scen(const Cfg &c, int start_init, const std::vector<std::vector<Step>> &th, int pre, int on) {
    np = c.np; ncpu = c.ncpu; memcpy(def, c.def, sizeof def); async = c.async; greedy = c.greedy;
    snprintf(args, sizeof args, "--lewi --quiet%s%s", async ? " --mode=async" : "", greedy ? " --lewi-greedy" : "");
    clear(); for (size_t i = 0; i < th.size(); ++i) if (th[i].size()) thread(i, th[i]);
    if (!mc::scenario(name())) return;
    memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U;
    for (int p = 0; p < np; ++p) vn_spawn(1001 + p);
    for (int p = 0; p < np; ++p) if (start_init >> p & 1) in_proc(p, [p]() -> long { o_init(p, 0); return 0; });
    for (int p = 0; p < np; ++p) if (on >> p & 1) { IN(p, DLB_Lend()); vn_run_helpers(-1); }
    start();
    mc::Sched s; s.preemptions = pre; s.at_end = at_end; s.max_states = 400000;
    mc::explore_schedules(s);
}
typedef std::vector<std::vector<Step>> Scripts;
static Scripts seqs(const std::vector<Step> &ops, int len) { Scripts r; if (len == 1) for (auto &a : ops) r.push_back({a}); else for (auto &a : ops) for (auto &b : ops) r.push_back({a, b}); return r; }
static void pairs(const Cfg &c, const std::vector<Step> &ops, int len, int pre, int lent) {
    Scripts s = seqs(ops, len);
    for (size_t i = 0; i < s.size(); ++i) for (size_t j = i; j < s.size(); ++j) { scen(c, 3, {s[i], s[j]}, pre, lent); if (lent == 1 && i != j) scen(c, 3, {s[j], s[i]}, pre, lent); }
}
static void triples(const Cfg &c, const std::vector<Step> &ops, int pre, int lent) {
    for (auto &a : ops) for (auto &b : ops) for (auto &d : ops) scen(c, 7, {{a}, {b}, {d}}, pre, lent);
}
static void life(const Cfg &c, const std::vector<Step> &ops, int pre) {
    for (auto &a : ops) for (auto &b : ops) { scen(c, 0, {{Init, a}, {Init, b}}, pre, 0); scen(c, 1, {{a, Fin}, {Init, b}}, pre, 0); scen(c, 3, {{a, Fin}, {b}}, pre, 0); scen(c, 3, {{a, Fin}, {b, Fin}}, pre, 0); }
}
void mc_register() {
    auto J = [](const std::string &n, std::function<void()> f) { mc::job(n, f, 10); };
    Cfg a = {2, 6, {3, 3}, false, false}, g = a; g.greedy = true; Cfg k = {3, 9, {3, 3, 3}, false, false}, kg = k; kg.greedy = true;
    std::vector<Step> ops = {Lend, Recl, Bor, Bor1}, all = {Lend, Recl, Bor, Bor1, Into, Out, Dis, En}, few = {Lend, Recl, Bor};
    int x = mc::level;
    J("poll.pairs2", [=]{ pairs(a, ops, 2, 3 + x, 0); }); J("poll.pairs2.lent", [=]{ pairs(a, ops, 2, 3 + x, 1); });
    J("poll.greedy.pairs2", [=]{ pairs(g, ops, 2, 3 + x, 0); }); J("poll.greedy.pairs2.lent", [=]{ pairs(g, ops, 2, 3 + x, 1); });
    J("poll.pairs1", [=]{ pairs(a, all, 1, 4 + x, 1); }); J("poll.greedy.pairs1", [=]{ pairs(g, all, 1, 4 + x, 1); });
    J("poll.triples", [=]{ triples(k, ops, 2 + x, 1); }); J("poll.greedy.triples", [=]{ triples(kg, ops, 2 + x, 1); });
    J("poll.life", [=]{ life(a, few, 1 + x); }); J("poll.greedy.life", [=]{ life(g, few, 1 + x); });
    Cfg b = {2, 6, {3, 3}, true, false}; Cfg e = {3, 9, {3, 3, 3}, true, false};
    std::vector<Step> aops = {Lend, Lend1, Recl, Bor1, Acq1, Acq2}, aall = {Lend, Recl, Bor, Acq1, Into, Out, Dis, En}, afew = {Lend, Recl, Acq2};
    J("async.pairs2", [=]{ pairs(b, {Lend, Recl, Acq2, Bor1}, 2, 1 + x, 0); });
    J("async.pairs1", [=]{ pairs(b, aops, 1, 2 + x, 0); pairs(b, aops, 1, 2 + x, 1); }); J("async.all1", [=]{ pairs(b, aall, 1, 1 + x, 1); });
    J("async.triples", [=]{ triples(e, afew, 1 + x, 1); }); J("async.life", [=]{ life(b, afew, x); });
}
