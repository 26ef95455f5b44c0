/* Node barriers: every interleaving, with a bounded number of preemptions, of processes that call barriers, and of processes and
 * threads that register, attach and detach them at the same time. */
#include "sched.h"
using mc::bad; using mc::fmt; using namespace sc;
enum { MP = 3, NB = 3 };
static const char *BN[NB] = {nullptr, "A", "B"};
static struct User { dlb_barrier_t *h[MP][NB]; int ent[MP][NB], ret[8][6], nr[8], got[MP]; dlb_barrier_t *reg[8]; } U;
static int np, in[MP][NB];
static int self() { return 0; }
static void chk(int b, int k) { for (int q = 0; q < np; ++q) if (in[q][b] && U.ent[q][b] < k) { bad("early", "a process left its barrier %d of '%s' before P%d arrived", k, b ? BN[b] : "default", q); return; } }
static void barrier(int p, int b) { int k = ++U.ent[p][b]; int r = b ? DLB_BarrierNamed(U.h[p][b]) : DLB_Barrier(); if (r) { bad("result", "P%d: barrier returned %s", p, errname(r)); return; } chk(b, k); }
static void note(int p, int r) { U.ret[p][U.nr[p]++] = r; }
static void reg(int p, int b) { dlb_barrier_t *h = DLB_BarrierNamedRegister(BN[b], DLB_BARRIER_LEWI_OFF); if (!h) bad("register", "P%d: register(%s) fails", p, BN[b]); if (U.h[p][b] && U.h[p][b] != h) bad("register", "P%d: registering '%s' twice gives two barriers", p, BN[b]); U.h[p][b] = h; }
static void det(int p, int b) { note(p, b ? DLB_BarrierNamedDetach(U.h[p][b]) : DLB_BarrierDetach()); }
static void att(int p, int b) { note(p, b ? DLB_BarrierNamedAttach(U.h[p][b]) : DLB_BarrierAttach()); }
static void reg2(int p, int b) { reg(p, b); }
static Step B0{barrier, 0, "barrier"}, BA{barrier, 1, "barrier(A)"}, BB{barrier, 2, "barrier(B)"}, RA{reg, 1, "register(A)"}, RB{reg, 2, "register(B)"}, DA{det, 1, "detach(A)"}, AA{att, 1, "attach(A)"}, D0{det, 0, "detach"}, A0{att, 0, "attach"};
/* nreg: the processes (mask) that have registered A and are attached, those that have the handle only */
static void scen(int n, const char *args, unsigned has, unsigned only, const std::vector<std::vector<Step>> &ts, std::vector<int> procs, std::function<void()> end, int pre = 2) {
    np = n; clear(); for (size_t i = 0; i < ts.size(); ++i) thread(procs.empty() ? i : procs[i], ts[i]); (void)self; (void)reg2;
    if (!mc::scenario(name() + fmt(" has A: %x only %x ", has, only) + args)) return;
    vn_tick = 0; memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; vn_reset(); vn_sysconf_cpus = 4; vn_heap_check = 1; memset(in, 0, sizeof in);
    for (int i = 0; i < n; ++i) vn_spawn(1001 + i);
    for (int i = 0; i < n; ++i) { cpu_set_t c = to_set(1UL << i); topo(i, 4, 4, 1); std::string a = std::string("--quiet --barrier ") + (*args ? args : "--lewi=no"); long e = IN(i, DLB_Init(0, &c, a.c_str())); if (mc::is_bad()) return; if (e) { bad("init", "DLB_Init %s", errname(e)); return; } in[i][0] = 1; }
    for (int i = 0; i < n; ++i) if ((has | only) >> i & 1) { U.h[i][1] = (dlb_barrier_t*)IN(i, DLB_BarrierNamedRegister("A", DLB_BARRIER_LEWI_ON)); if (mc::is_bad()) return; in[i][1] = 1; }
    for (int i = 0; i < n; ++i) if (only >> i & 1) { IN(i, DLB_BarrierNamedDetach(U.h[i][1])); in[i][1] = 0; if (mc::is_bad()) return; }
    start(); mc::Sched s; s.preemptions = pre + mc::level; if (n > 2) s.preemptions -= 1;
    s.at_end = [=](bool dead) { if (dead) { bad("deadlock", "the processes are blocked for ever"); return; } end(); if (mc::is_bad()) return;
        for (int i = 0; i < np; ++i) { long e = IN(i, DLB_Finalize()); if (mc::is_bad()) return; if (e) { bad("finalize", "Finalize %s", errname(e)); return; } }
        if (vn_shm_count()) bad("leftover", "%d shared memories left", vn_shm_count()); };
    mc::explore_schedules(s);
}
/* barrier b has exactly the participants in m: detaching them one by one counts down */
static void count(int b, unsigned m) { int k = __builtin_popcount(m); for (int i = 0; i < np; ++i) if (m >> i & 1) { long e = b ? IN(i, DLB_BarrierNamedDetach(U.h[i][b])) : IN(i, DLB_BarrierDetach()); if (mc::is_bad()) return; if (e != --k) { bad("participants", "P%d detaches from '%s' and %ld participants are left, should be %d", i, b ? BN[b] : "default", e, k); return; } }
    for (int i = 0; i < np; ++i) if (!(m >> i & 1)) { long e = b ? U.h[i][b] ? IN(i, DLB_BarrierNamedDetach(U.h[i][b])) : (long)DLB_ERR_PERM : IN(i, DLB_BarrierDetach()); if (mc::is_bad()) return; if (e != DLB_ERR_PERM) { bad("participants", "P%d is not attached to '%s' and detaches: %ld", i, b ? BN[b] : "default", e); return; } } mc::outcome("participants counted"); }
void mc_register() {
    auto rounds = [](int b, int k) { return [=]() { for (int i = 0; i < np; ++i) if (in[i][b] && U.ent[i][b] != k) bad("rounds", "P%d did %d barriers of %d", i, U.ent[i][b], k); mc::outcome("all rounds done"); }; };
    for (int n : {2, 3}) mc::job(fmt("%dp.rounds", n), [=]() {
        auto all = [=](std::vector<Step> v) { return std::vector<std::vector<Step>>(n, v); };
        scen(n, "", 0, 0, all({B0, B0, B0}), {}, rounds(0, 3)); scen(n, "", 7, 0, all({B0, BA}), {}, rounds(1, 1)); scen(n, "--lewi", 0, 0, all(n == 2 || mc::level > 1 ? std::vector<Step>{B0, B0} : std::vector<Step>{B0}), {}, rounds(0, n == 2 || mc::level > 1 ? 2 : 1)); scen(n, "--lewi --lewi-barrier=no", 7, 0, all({BA}), {}, rounds(1, 1));
    }, 5 * n);
    mc::job("2p.reg", []() {
        scen(2, "", 0, 0, {{RA}, {RA}}, {}, []() { count(1, 3); count(0, 3); });
        scen(2, "", 0, 0, {{RA, RB}, {RB, RA}}, {}, []() { if (U.h[0][1] == U.h[0][2]) bad("register", "two names give the same barrier"); else { count(1, 3); count(2, 3); } });
        scen(2, "", 3, 0, {{DA, RA}, {DA, RA}}, {}, []() { count(1, 3); });
        scen(2, "", 1, 0, {{DA}, {RA}}, {}, []() { count(1, 2); });
    }, 6);
    mc::job("2p.attach", []() {
        scen(2, "", 1, 2, {{DA}, {AA}}, {}, []() { int d = U.ret[0][0], a = U.ret[1][0]; if (!((d == 0 && a == DLB_ERR_PERM) || (d == 1 && a == 2))) bad("result", "detach %d, attach %d", d, a); mc::outcome(a == 2 ? "attach wins" : "detach wins"); count(1, a == 2 ? 2 : 0); });
        scen(2, "", 0, 0, {{D0, A0}, {D0, A0}}, {}, []() { count(0, 3); });
    }, 5);
    mc::job("threads", []() {
        scen(1, "", 0, 0, {{RA}, {RA}}, {0, 0}, []() { count(1, 1); });
        scen(1, "", 0, 0, {{RA}, {RB}}, {0, 0}, []() { count(1, 1); count(2, 1); });
        scen(2, "", 1, 0, {{RA}, {RA}, {DA}}, {1, 1, 0}, []() { count(1, 2); });
        scen(1, "", 1, 0, {{D0, A0}, {D0, A0}}, {0, 0}, []() { long e = IN(0, DLB_BarrierAttach()); if (mc::is_bad()) return; if (e != 1 && e != DLB_ERR_PERM) { bad("result", "attach %ld", e); return; } count(0, 1); });
        scen(1, "", 1, 0, {{DA, AA}, {DA, AA}}, {0, 0}, []() { (void)IN(0, DLB_BarrierNamedDetach(U.h[0][1])); long e = IN(0, DLB_BarrierNamedDetach(U.h[0][1])); if (!mc::is_bad() && e != DLB_ERR_PERM) bad("participants", "detached twice"); });
    }, 4);
}
