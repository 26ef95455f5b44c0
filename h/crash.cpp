/* A process of the node dies at any point of any history of LeWI and DROM operations. Whoever initializes later gets the
 * CPUs of the dead process, the others keep theirs, everybody can lend and recover CPUs again, and nothing is left at the end. */
#include "hn.h"
using mc::bad; using mc::fmt;
enum { MP = 3 };
struct Cfg { int np, ncpu, ncore; Mask mask[MP]; const char *args; bool async, count, drom, known; };
static Cfg C;
static struct User { struct { signed char slot; bool up; char dead, blk, taint; Mask mask, use; int n; } p[MP]; int crashes; bool known; /* schedules */ bool sched, held, two, window; int err; signed char wins[MP], died[2 * MP]; } U;
static auto &P = U.p;
static int role() { return G.cur_proc % MP; }
static void cb_en(int c, void *) { P[role()].use |= 1UL << c; }
static void cb_dis(int c, void *) { P[role()].use &= ~(1UL << c); }
static void cb_num(int n, void *) { P[role()].n = n; }
static void cb_mask(const cpu_set_t *m, void *) { P[role()].use = from_set(m); }
#define R(i, e) IN(P[i].slot, e)
static std::string show() { std::string r; for (int i = 0; i < C.np; ++i) r += fmt("%sP%d%s %s", i ? ", " : "", i, P[i].dead ? " (dead)" : P[i].up ? "" : " (out)", C.count ? fmt("%d of %d", P[i].n, popc(P[i].mask)).c_str() : (mstr(P[i].use) + " of " + mstr(P[i].mask)).c_str()); return r; }
#define BAD(sig, f, ...) bad(U.window ? "count-window" : U.known ? C.async ? "count-guests" : "count-poll" : sig, f "; %s", ##__VA_ARGS__, show().c_str())
static void settle() { if (C.async && !mc::is_bad()) vn_run_helpers(-1); }
static bool init(int i, bool must = true) {
    int s = P[i].slot; std::string a = std::string("--quiet ") + C.args; cpu_set_t m = to_set(P[i].mask); topo(s, C.ncpu, C.ncore, 1); int ex = 0;
    long e = in_proc(s, [&]() -> long { return C.count ? DLB_Init(popc(P[i].mask), nullptr, a.c_str()) : DLB_Init(0, &m, a.c_str()); }, &ex); if (mc::is_bad()) return false;
    if (ex) { BAD("init", "P%d cannot initialize: %s %s", i, exc_name[ex], vn_exc_msg); return false; }
    if (e) { if (must) BAD("init", "P%d cannot initialize: %s", i, errname(e)); return false; }
    for (auto &p : P) if (p.dead) p.dead = 2;       /* cleaned up */
    P[i].up = true; P[i].dead = P[i].blk = P[i].taint = false; P[i].use = P[i].mask; P[i].n = popc(P[i].mask);
    if (C.count) R(i, DLB_CallbackSet(dlb_callback_set_num_threads, (dlb_callback_t)cb_num, nullptr));
    else { R(i, DLB_CallbackSet(dlb_callback_enable_cpu, (dlb_callback_t)cb_en, nullptr)); R(i, DLB_CallbackSet(dlb_callback_disable_cpu, (dlb_callback_t)cb_dis, nullptr)); if (C.drom) R(i, DLB_CallbackSet(dlb_callback_set_process_mask, (dlb_callback_t)cb_mask, nullptr)); }
    return !mc::is_bad();
}
static void fini(int i) { long e = R(i, DLB_Finalize()); if (mc::is_bad()) return; if (e) BAD("finalize", "DLB_Finalize of P%d returns %s", i, errname(e)); P[i].up = false; P[i].use = 0; P[i].n = 0; settle(); }
static Mask getmask(int i, int target) { cpu_set_t m = to_set(0); long e = R(i, DLB_DROM_GetProcessMask(1001 + P[target].slot, &m, (dlb_drom_flags_t)0)); if (!mc::is_bad() && e < 0) BAD("getmask", "GetProcessMask of P%d returns %s", target, errname(e)); return from_set(&m); }
static int alive_other(int i) { for (int k = 0; k < C.np; ++k) if (k != i && P[k].up) return k; return -1; }
static void crash(int i) {
    if (C.drom) { int k = alive_other(i); P[i].mask = getmask(k >= 0 ? k : i, i); if (mc::is_bad()) return; }
    P[i].taint = C.count && P[i].n != popc(P[i].mask);
    if (C.count && !C.async && P[i].taint) U.known = true;
    vn_kill(P[i].slot); P[i].up = false; P[i].dead = true; P[i].use = 0; P[i].n = 0; ++U.crashes; settle();
}
static void join(int i) {
    Mask was[MP]; for (int k = 0; k < C.np; ++k) if (C.drom && P[k].up) was[k] = getmask(k, k); if (mc::is_bad()) return;
    if (C.drom) for (int k = 0; k < C.np && !U.sched; ++k) if (P[k].up) { for (int d = 0; d < C.np; ++d) if (P[d].dead == 1) { P[d].mask = getmask(k, d); if (mc::is_bad()) return; } break; }       /* the others may have changed it */
    bool t = P[i].taint; P[i].slot += MP; if (!init(i)) return; settle(); mc::outcome("a process takes the place of a dead one"); if (t) mc::outcome("the dead one had lent or borrowed CPUs");
    for (int k = 0; k < C.np; ++k) if (C.drom && P[k].up && k != i) { Mask now = getmask(k, k); if (mc::is_bad()) return; if (now != was[k]) BAD("live-mask", "the mask of P%d was %s and is %s after P%d took the place of a dead process", k, mstr(was[k]).c_str(), mstr(now).c_str(), i); }
    if (C.drom) { int l[8], n = 0; R(i, DLB_DROM_GetPidList(l, &n, 8)); std::set<int> s(l, l + n), e; for (int k = 0; k < C.np; ++k) if (P[k].up) e.insert(1001 + P[k].slot); if (s != e || n != (int)e.size()) BAD("pidlist", "the list of processes has %d after P%d took the place of a dead one", n, i); }
}
static bool busy_dead() { for (int i = 0; i < C.np; ++i) if (P[i].dead) return true; return false; }
static void invariant() {
    if (C.count && C.async && busy_dead()) { int s = 0; for (int k = 0; k < C.np; ++k) if (P[k].up) s += P[k].n - popc(P[k].mask); if (s > 0) U.known = true; }       /* CPUs that the dead one lent are in use */
    if (C.count) return;
    for (int i = 0; i < C.np && C.drom; ++i) for (int k = 0; k < i; ++k) if (P[i].up && P[k].up && (getmask(i, i) & getmask(k, k))) BAD("overlap", "P%d and P%d have CPUs in common", k, i);
}
/* everybody is back, and everything works again */
static void rounds() {
    for (int k = 0; k < 3 && !mc::is_bad(); ++k) {
        for (int i = 0; i < C.np; ++i) { if (C.count) { if (!C.async) R(i, DLB_Borrow()); } else R(i, DLB_Return()); if (mc::is_bad()) return; settle(); }
        for (int i = 0; i < C.np; ++i) { R(i, DLB_Reclaim()); if (mc::is_bad()) return; settle(); }
    }
}
static void verify_mask() {
    rounds(); if (mc::is_bad()) return;
    for (int i = 0; i < C.np; ++i) if (P[i].use != P[i].mask) { BAD("recover", "after everybody reclaims, P%d has %s", i, mstr(P[i].use).c_str()); return; }
    for (int i = 0; i < C.np; ++i) {
        int q = (i + 1) % C.np; cpu_set_t m = to_set(P[i].mask); P[i].use = 0;
        long e = R(i, DLB_LendCpuMask(&m)); if (mc::is_bad()) return; settle(); if (e) { BAD("lend", "P%d cannot lend its CPUs: %s", i, errname(e)); return; }
        e = R(q, DLB_AcquireCpuMask(&m)); if (mc::is_bad()) return; settle();
        Mask u = 0; for (int k = 0; k < C.np; ++k) u |= P[k].use; if ((u & P[i].mask) != P[i].mask) { BAD("lost", "P%d lends %s and P%d asks for them (%s): nobody uses %s", i, mstr(P[i].mask).c_str(), q, errname(e), mstr(P[i].mask & ~u).c_str()); return; }
        e = R(i, DLB_Reclaim()); if (mc::is_bad()) return; settle();
        for (int k = 0; k < C.np; ++k) if (k != i) { R(k, DLB_Return()); if (mc::is_bad()) return; settle(); }
        R(i, DLB_Reclaim()); settle(); if (mc::is_bad()) return;
        for (int k = 0; k < C.np; ++k) if (P[k].use != P[k].mask) { BAD("back", "P%d reclaims its CPUs (%s) and P%d has %s", i, errname(e), k, mstr(P[k].use).c_str()); return; }
    }
}
static void verify_count() {
    rounds(); if (mc::is_bad()) return; int tot = 0;
    for (int i = 0; i < C.np; ++i) { tot += popc(P[i].mask); if (P[i].n != popc(P[i].mask)) { BAD("count-recover", "after everybody reclaims, P%d has %d CPUs", i, P[i].n); return; } }
    for (int i = 0; i < C.np; ++i) {
        int q = (i + 1) % C.np, n = popc(P[i].mask);
        R(i, DLB_Lend()); if (mc::is_bad()) return; settle();
        if (C.async) R(q, DLB_AcquireCpus(n)); else R(q, DLB_Borrow()); if (mc::is_bad()) return; settle();
        int sum = 0; for (int k = 0; k < C.np; ++k) sum += P[k].n; if (sum != tot) { BAD("count-lend", "P%d lends its CPUs and P%d borrows them: the processes use %d CPUs of %d", i, q, sum, tot); return; }
        R(i, DLB_Reclaim()); if (mc::is_bad()) return; settle(); for (int k = 0; k < C.np && !C.async; ++k) if (k != i) R(k, DLB_Borrow()); if (mc::is_bad()) return;
        if (C.async) for (int k = 0; k < C.np; ++k) { R(k, DLB_AcquireCpus(DLB_DELETE_REQUESTS)); settle(); } if (mc::is_bad()) return;
        for (int k = 0; k < C.np; ++k) if (P[k].n != popc(P[k].mask)) { BAD("count-back", "P%d reclaims its CPUs and P%d has %d CPUs", i, k, P[k].n); return; }
    }
}
static void verify_drom() {
    for (int i = 0; i < C.np; ++i) { for (int k = 0; k < 2; ++k) { int n; cpu_set_t m; R(i, DLB_PollDROM(&n, &m)); if (mc::is_bad()) return; } }
    Mask all = 0; for (int i = 0; i < C.np; ++i) { Mask m = getmask(i, i); if (mc::is_bad()) return; if (all & m) { BAD("overlap", "masks in common"); return; } all |= m; P[i].mask = m; }
    /* and they can still move CPUs between them */
    for (int i = 0; i < C.np; ++i) { int q = (i + 1) % C.np; Mask m = P[i].mask & (P[i].mask - 1); if (!m) continue; Mask c = P[i].mask & ~m; cpu_set_t s = to_set(P[q].mask | c);
        long e = R(i, DLB_DROM_SetProcessMask(1001 + P[q].slot, &s, (dlb_drom_flags_t)DLB_STEAL_CPUS)); if (mc::is_bad()) return; if (e) { BAD("steal", "P%d gives %s to P%d: %s", i, mstr(c).c_str(), q, errname(e)); return; }
        int n; R(q, DLB_PollDROM(&n, &s)); if (mc::is_bad()) return; Mask a = getmask(q, q); R(i, DLB_PollDROM(&n, &s)); if (mc::is_bad()) return; Mask b = getmask(i, i); if (mc::is_bad()) return;
        if (a != (P[q].mask | c) || b != m) { BAD("steal", "P%d gave %s to P%d: they have %s and %s", i, mstr(c).c_str(), q, mstr(b).c_str(), mstr(a).c_str()); return; } P[q].mask = a; P[i].mask = b; }
}
static void verify() {
    bool had = U.crashes > 0;
    for (int i = 0; i < C.np; ++i) if (P[i].dead) { join(i); if (mc::is_bad()) return; } else if (!P[i].up) { if (!init(i)) return; settle(); }
    if (C.drom) verify_drom(); else if (C.count) verify_count(); else verify_mask();
    if (mc::is_bad()) return;
    for (int i = 0; i < C.np; ++i) { fini(i); if (mc::is_bad()) return; }
    if (vn_shm_count()) BAD("leftover", "%d shared memories left", vn_shm_count());
    if (had) mc::outcome("verified after a crash");
}
static void run(Cfg c, int depth, int crashes, std::vector<std::string> only = {}) {
    C = c; memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; vn_tick = 0; vn_reset(); vn_sysconf_cpus = C.ncpu;
    for (int s = 0; s < 2 * MP; ++s) vn_spawn(1001 + s);
    for (int i = 0; i < C.np; ++i) { P[i].slot = i; P[i].mask = C.mask[i]; } for (int i = 0; i < C.np; ++i) if (!init(i)) return;
    std::vector<mc::Op> o;
    auto add = [&](int i, const std::string &n, std::function<void()> f) { for (auto &x : only) if (x[0] == '!' ? n.find(x.substr(1)) != std::string::npos : false) return; o.push_back({fmt("P%d.%s", i, n.c_str()), [i]{ return P[i].up; }, [=]{ f(); settle(); }}); };
    std::vector<int> probes; auto add2 = [&](int i, const std::string &n, std::function<void()> f) { o.push_back({fmt("P%d.%s", i, n.c_str()), [i]{ for (auto &p : P) if (p.dead == 2) return false; return P[i].up; }, f}); };
    for (int i = 0; i < C.np; ++i) {
        int q = (i + 1) % C.np, own = __builtin_ctzl(C.mask[i]), oth = __builtin_ctzl(C.mask[q]);
        if (C.drom) {
            for (int k = 0; k < C.np; ++k) { Mask a = C.mask[k] & (C.mask[k] - 1), b = C.mask[k] | 1UL << __builtin_ctzl(C.mask[(k + 1) % C.np]);
                for (Mask m : {a, b, C.mask[k]}) add2(i, fmt("SetMask(P%d,%s)", k, mstr(m).c_str()), [=]{ cpu_set_t s = to_set(m); if (P[k].up || P[k].dead == 1) R(i, DLB_DROM_SetProcessMask(1001 + P[k].slot, &s, (dlb_drom_flags_t)DLB_STEAL_CPUS)); }); }
            add(i, "Poll", [=]{ int n; cpu_set_t m; R(i, DLB_PollDROM(&n, &m)); });
        } else if (C.count) {
            add(i, "Lend", [=]{ R(i, DLB_Lend()); }); add(i, "Borrow", [=]{ R(i, DLB_Borrow()); }); add(i, "Reclaim", [=]{ R(i, DLB_Reclaim()); });
            if (C.async) { add(i, "AcquireCpus(1)", [=]{ R(i, DLB_AcquireCpus(1)); }); add(i, "LendCpus(1)", [=]{ R(i, DLB_LendCpus(1)); }); } else add(i, "BorrowCpus(1)", [=]{ R(i, DLB_BorrowCpus(1)); });
        } else {
            add(i, "Lend", [=]{ P[i].use = 0; R(i, DLB_Lend()); }); add(i, fmt("LendCpu(%d)", own), [=]{ P[i].use &= ~(1UL << own); R(i, DLB_LendCpu(own)); }); add(i, "Borrow", [=]{ R(i, DLB_Borrow()); }); add(i, fmt("AcquireCpu(%d)", oth), [=]{ R(i, DLB_AcquireCpu(oth)); });
            add(i, "Reclaim", [=]{ R(i, DLB_Reclaim()); }); add(i, "Return", [=]{ R(i, DLB_Return()); }); if (C.async) add(i, "AcquireCpus(2)", [=]{ R(i, DLB_AcquireCpus(2)); });
        }
        if (!C.drom) add(i, "Finalize", [=]{ fini(i); });
        o.push_back({fmt("P%d.Init", i), [i]{ return !P[i].up && !P[i].dead && !C.drom; }, [i]{ init(i); settle(); }});
        o.push_back({fmt("P%d.crash", i), [=]{ return P[i].up && U.crashes < crashes && P[i].slot < MP && (!C.count || C.async || C.drom || C.known || P[i].n == popc(P[i].mask)); }, [i]{ crash(i); }}); probes.push_back(o.size() - 1);
        o.push_back({fmt("P%d.join", i), [i]{ return P[i].dead; }, [i]{ join(i); }}); probes.push_back(o.size() - 1);
    }
    o.push_back({"verify", []{ return U.crashes > 0; }, verify}); probes.push_back(o.size() - 1);
    mc::Limits l; l.depth = depth + mc::level; l.max_states = 3000000; l.probes = probes; mc::explore_ops(o, invariant, l);
}
#ifndef LIFE_SCHED
void mc_register() {
    auto J = [](const char *n, Cfg c, int d, int k) { mc::job(n, [=]{ run(c, d, k); }, 8); };
    Cfg m2{2, 4, 4, {3, 12, 0}, "--lewi", false, false, false}; J("mask.poll", m2, 3, 1); Cfg ma = m2; ma.args = "--lewi --mode=async"; ma.async = true; J("mask.async", ma, 3, 1);
    Cfg sm = m2; sm.ncore = 2; J("mask.smt", sm, 3, 1); Cfg m3{3, 3, 3, {1, 2, 4}, "--lewi", false, false, false}; J("mask.3p", m3, 2, 2); Cfg m3a = m3; m3a.async = true; m3a.args = ma.args; J("mask.3p.async", m3a, 2, 2);
    Cfg al = m2; al.args = "--lewi --drom --talp --talp-external-profiler --talp-summary=none --barrier"; J("mask.all", al, 2, 1); 
    Cfg c2{2, 4, 4, {3, 12, 0}, "--lewi", false, true, false}; J("count.poll", c2, 3, 1); Cfg ck = c2; ck.known = true; J("count.poll.lent", ck, 1, 1); Cfg ca = c2; ca.async = true; ca.args = "--lewi --mode=async"; J("count.async", ca, 3, 1); Cfg c3{3, 4, 4, {1, 2, 12}, ca.args, true, true, false}; J("count.3p.async", c3, 2, 2);
    Cfg d2{2, 4, 4, {3, 12, 0}, "--drom --lewi=no", false, false, true}; J("drom", d2, 3, 1); Cfg d3{3, 6, 6, {3, 12, 48}, d2.args, false, false, true}; J("drom.3p", d3, 2, 2);
}
#endif
