/* Classic LeWI (CPU counts, no masks), polling and asynchronous: every sequence of API operations of 2-3 processes
 * on the real code, against a machine that counts CPUs. The distribution chosen by the asynchronous policy among
 * several requesters/victims is taken from the implementation and checked to be legal and even. */
#include "hn.h"
using mc::bad; using mc::fmt;
extern "C" { long shim_into(long); long shim_out(long); }
enum { MAXP = 3 };
struct Cfg { int np, ncpu; int def[MAXP]; bool async, greedy, keep; };
static Cfg C;
struct Model {
    int idle; struct { bool init, on; int my, maxpar, pend, prev; } p[MAXP];
    int seen[MAXP];            /* last thread count each process was told */
};
struct Ev { int p, n; };
static struct User { Model m; Ev got[32]; int ngot; } U;
static Model &M = U.m;
static std::vector<Ev> want;
static void cb_num(int n, void*) { if (U.ngot < 32) U.got[U.ngot++] = {G.cur_proc, n}; }
static int clampn(int n) { return n < 1 ? 1 : n > C.ncpu ? C.ncpu : n; }
static long call(int p, const std::function<long()> &f) { long r = in_proc(p, f); if (C.async && !mc::is_bad()) vn_run_helpers(-1); return r; }
#define R(p, expr) call(p, [&]() -> long { return (long)(expr); })
static void clear_got() { memset(U.got, 0, sizeof U.got); U.ngot = 0; want.clear(); }
static std::string show() { std::string s = fmt("idle=%d ", M.idle); for (int p = 0; p < C.np; ++p) if (M.p[p].init) s += fmt("P%d:%d/%d pending=%d ", p, M.p[p].my, C.def[p], M.p[p].pend); return s; }
static void rc(const char *op, long got, long w) { if (got != w) bad("result", "%s returned %s, should be %s (%s)", op, errname(got), errname(w), show().c_str()); }

/* ---------------- polling */
static void set(int p, int n) { if (M.p[p].my != n) { want.push_back({p, clampn(n)}); M.p[p].my = n; } }
static void m_reclaim(int p, bool greedy) { int c = C.def[p] - M.p[p].my; M.idle -= c; if (M.idle > 0 && greedy) { c += M.idle; M.idle = 0; } set(p, M.p[p].my + c); }
static void settle_poll(int p) {
    auto s = [](const Ev *e, int n) { std::string r; for (int i = 0; i < n; ++i) r += fmt("P%d:=%d ", e[i].p, e[i].n); return r.empty() ? std::string("none") : r; };
    bool same = (int)want.size() == U.ngot; for (int i = 0; same && i < U.ngot; ++i) same = want[i].p == U.got[i].p && want[i].n == U.got[i].n;
    if (!same) bad("threads", "thread counts set: %s; should be: %s (%s)", s(U.got, U.ngot).c_str(), s(want.data(), want.size()).c_str(), show().c_str());
    for (int i = 0; i < U.ngot; ++i) M.seen[U.got[i].p] = U.got[i].n;
    clear_got();
}
/* ---------------- asynchronous: what the processes were told must be a legal outcome */
static int told(int p, bool *any) { int v = -1; *any = false; for (int i = 0; i < U.ngot; ++i) if (U.got[i].p == p) { v = U.got[i].n; *any = true; } return v; }
/* legal(): gains[q] given to the others (negative: taken from them), bounded by cap[q], total must be exactly n, and even */
static void others(int p, int total, const int *cap, int sign, const char *what) {
    int sum = 0, g[MAXP] = {0};
    for (int q = 0; q < C.np; ++q) if (q != p && M.p[q].init) {
        bool any; int v = told(q, &any);
        if (any) { g[q] = sign * (v - M.p[q].my); }
        if (any && sign * (v - M.p[q].my) == 0 && !(M.p[q].my != clampn(M.p[q].my)))
            bad("others", "%s: P%d was told to use %d CPUs again (%s)", what, q, v, show().c_str());
        /* a count of 0 is told as 1 */
        if (any && v == 1 && sign < 0 && g[q] < cap[q] && M.p[q].my - cap[q] == 0) g[q] = cap[q];
        if (g[q] < 0 || g[q] > cap[q]) bad("others", "%s: P%d went from %d to %d, at most %d could change (%s)", what, q, M.p[q].my, v, cap[q], show().c_str());
        sum += g[q];
    }
    if (sum != total) bad("others", "%s: %d CPUs changed hands, should be %d (%s)", what, sum, total, show().c_str());
    for (int q = 0; q < C.np; ++q) if (q != p && M.p[q].init) for (int r = 0; r < C.np; ++r) if (r != p && r != q && M.p[r].init)
        if (g[q] < cap[q] && g[q] < g[r] - 1) bad("others", "%s: not evenly distributed: P%d %d of %d, P%d %d of %d", what, q, g[q], cap[q], r, g[r], cap[r]);
    for (int q = 0; q < C.np; ++q) if (q != p && M.p[q].init) { M.p[q].my += sign * g[q]; if (sign > 0) M.p[q].pend -= g[q]; else M.p[q].pend += g[q]; bool any; told(q, &any); if (any) M.seen[q] = clampn(M.p[q].my); }
}
static void self(int p, bool expect, const char *what) {
    bool any; int v = told(p, &any);
    if (any != expect) bad("threads", "%s: P%d %s (%s)", what, p, any ? "was told a thread count although nothing changed" : "was not told its thread count", show().c_str());
    if (any && v != clampn(M.p[p].my)) bad("threads", "%s: P%d told to use %d CPUs, should be %d (%s)", what, p, v, clampn(M.p[p].my), show().c_str());
    if (any) M.seen[p] = v;
}
static void a_give(int p, int n, const char *what) {       /* n CPUs released by p: to the pending requests of the others, then idle */
    int cap[MAXP] = {0}, tot = 0; for (int q = 0; q < C.np; ++q) if (q != p && M.p[q].init) { cap[q] = M.p[q].pend; tot += cap[q]; }
    int k = n < tot ? n : tot; others(p, k, cap, 1, what); M.idle += n - k;
}
static void a_take(int p, int n, const char *what) {       /* reclaim n from those using more than theirs */
    int cap[MAXP] = {0}; for (int q = 0; q < C.np; ++q) if (q != p && M.p[q].init && M.p[q].my > C.def[q]) cap[q] = M.p[q].my - C.def[q];
    others(p, n, cap, -1, what); M.p[p].my += n;
}
static int a_borrow(int p, int n) { int k = n < M.idle ? n : M.idle; M.idle -= k; M.p[p].my += k; return k; }
static void a_lend(int p, int keep, const char *what, long r) {
    int lent = M.p[p].my - keep, notown = M.p[p].my > C.def[p] ? std::min(M.p[p].my - C.def[p], lent) : 0;
    if (lent < 0 || keep < 0) { rc(what, r, DLB_ERR_PERM); self(p, false, what); return; }
    if (lent == 0) { rc(what, r, DLB_NOUPDT); self(p, false, what); return; }
    rc(what, r, DLB_SUCCESS);
    int prev = notown + M.p[p].pend; M.p[p].pend = 0; if (prev) M.p[p].prev = prev;
    M.p[p].my = keep; a_give(p, lent, what); self(p, true, what);
}
static void a_reclaim(int p, const char *what, long r) {
    if (M.p[p].my >= C.def[p]) { rc(what, r, DLB_NOUPDT); self(p, false, what); return; }
    rc(what, r, DLB_SUCCESS);
    int n = C.def[p] - M.p[p].my; n -= a_borrow(p, n); if (n > 0) a_take(p, n, what); else { int z[MAXP] = {0}; others(p, 0, z, 1, what); }
    if (M.p[p].prev > 0) { int k = a_borrow(p, M.p[p].prev); M.p[p].pend += M.p[p].prev - k; M.p[p].prev = 0; }
    self(p, true, what);
}
static void a_acquire(int p, int n, const char *what, long r, bool chk) {
    n += M.p[p].prev; M.p[p].prev = 0; 
    n -= a_borrow(p, n);
    int rec = std::min(n, std::max(0, C.def[p] - M.p[p].my));
    if (rec > 0) { a_take(p, rec, what); n -= rec; } else { int z[MAXP] = {0}; others(p, 0, z, 1, what); }
    if (n > 0) M.p[p].pend += n;
    if (chk) rc(what, r, n > 0 ? DLB_NOTED : DLB_SUCCESS);
    self(p, true, what);
}
static void a_reset(int p, const char *what) {
    int prev = M.p[p].pend; M.p[p].pend = 0;
    if (M.p[p].my > C.def[p]) { int n = M.p[p].my - C.def[p]; prev += n; M.p[p].my = C.def[p]; a_give(p, n, what); }
    else if (M.p[p].my < C.def[p]) { int n = C.def[p] - M.p[p].my; n -= a_borrow(p, n); if (n > 0) a_take(p, n, what); else { int z[MAXP] = {0}; others(p, 0, z, 1, what); } }
    else { prev = 0; int z[MAXP] = {0}; others(p, 0, z, 1, what); }       /* nothing to give back: the request is dropped, not saved */
    if (prev) M.p[p].prev = prev;
}
/* ---------------- invariants */
static void invariant() {
    int sum = M.idle, def = 0; for (int p = 0; p < C.np; ++p) if (M.p[p].init) { sum += M.p[p].my; def += C.def[p];
        if (C.async && M.p[p].my < 0) { bad("conservation", "P%d has %d CPUs", p, M.p[p].my); return; } }
    if (sum != def || (C.async && M.idle < 0)) bad("conservation", "%d CPUs in use or idle, the processes brought %d (%s)", sum, def, show().c_str());
    for (int p = 0; p < C.np; ++p) if (M.p[p].init && M.p[p].on && M.seen[p] != clampn(M.p[p].my)) bad("threads", "P%d runs %d threads and holds %d CPUs", p, M.seen[p], M.p[p].my);
}
static void do_init(int p) {
    std::string a = "--lewi --quiet"; if (C.async) a += " --mode=async"; if (C.greedy) a += " --lewi-greedy"; if (C.keep) a += " --lewi-keep-one-cpu";
    topo(p, C.ncpu, C.ncpu, 1);
    rc("DLB_Init", R(p, DLB_Init(C.def[p], nullptr, a.c_str())), DLB_SUCCESS);
    R(p, DLB_CallbackSet(dlb_callback_set_num_threads, (dlb_callback_t)cb_num, nullptr));
    bool any = false; for (int q = 0; q < C.np; ++q) any |= M.p[q].init; if (!any) M.idle = 0;
    M.p[p] = {true, true, C.def[p], 0, 0, 0}; M.seen[p] = C.def[p];
    clear_got();
}
static void run(Cfg c, int depth, bool life) {
    C = c; memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; want.clear();
    for (int p = 0; p < C.np; ++p) vn_spawn(1001 + p);
    for (int p = 0; p < C.np && !mc::is_bad(); ++p) do_init(p);
    std::vector<mc::Op> o;
    auto add = [&](int p, const std::string &n, std::function<long()> real, std::function<void(long)> model, bool gated = true) {
        o.push_back({fmt("P%d.%s", p, n.c_str()), [p]{ return M.p[p].init; }, [=]{
            clear_got(); long r = R(p, real()); if (mc::is_bad()) return;
            if (gated && !M.p[p].on) { rc(n.c_str(), r, DLB_ERR_DISBLD); } else model(r);
            if (!C.async) settle_poll(p); clear_got(); }});
    };
    for (int p = 0; p < C.np; ++p) {
        bool as = C.async;
        add(p, "Lend", []{ return DLB_Lend(); }, [=](long r) { if (as) a_lend(p, 1, "Lend", r); else { rc("Lend", r, DLB_SUCCESS); M.idle += M.p[p].my - 1; set(p, 1); } });
        add(p, "Reclaim", []{ return DLB_Reclaim(); }, [=](long r) { if (as) a_reclaim(p, "Reclaim", r); else { rc("Reclaim", r, DLB_SUCCESS); m_reclaim(p, C.greedy); } });
        for (int n = 1; n <= 3; ++n) { if (n == 2 && C.np > 2) continue; int k = n == 3 ? 1 << 30 : n; std::string nm = n == 3 ? "Borrow" : fmt("BorrowCpus(%d)", n);
            add(p, nm, [=]{ return n == 3 ? DLB_Borrow() : DLB_BorrowCpus(k); }, [=](long r) {
                if (as) { int g = a_borrow(p, k); rc(nm.c_str(), r, g ? DLB_SUCCESS : DLB_NOUPDT); int z[MAXP] = {0}; others(p, 0, z, 1, nm.c_str()); self(p, g > 0, nm.c_str()); return; }
                int lim = k; if (M.p[p].maxpar) lim = std::min(k, M.p[p].maxpar - M.p[p].my); int was = M.p[p].my;
                if (M.idle < 0 && was > C.def[p]) { int g = std::min(-M.idle, was - C.def[p]); M.idle += g; set(p, was - g); }       /* oversubscribed: give back */
                else if (M.idle > 0) { int g = std::min(M.idle, lim); M.idle -= g; set(p, was + g); }                              /* a negative limit gives CPUs back */
                rc(nm.c_str(), r, M.p[p].my != was ? DLB_SUCCESS : DLB_NOUPDT); }); }
        if (as) {
            for (int n = 1; n <= 2; ++n) add(p, fmt("LendCpus(%d)", n), [=]{ return DLB_LendCpus(n); }, [=](long r) { a_lend(p, M.p[p].my - n, "LendCpus", r); });
            for (int n = 1; n <= 2; ++n) add(p, fmt("AcquireCpus(%d)", n), [=]{ return DLB_AcquireCpus(n); }, [=](long r) { a_acquire(p, n, "AcquireCpus", r, true); });
            add(p, "AcquireCpus(0)", []{ return DLB_AcquireCpus(DLB_DELETE_REQUESTS); }, [=](long r) { rc("AcquireCpus(DELETE)", r, DLB_SUCCESS); M.p[p].pend = M.p[p].prev = 0; int z[MAXP] = {0}; others(p, 0, z, 1, "AcquireCpus(0)"); self(p, false, "AcquireCpus(0)"); });
        } else {
            add(p, "SetMaxParallelism(1)", []{ return DLB_SetMaxParallelism(1); }, [=](long r) { rc("SetMaxParallelism", r, DLB_SUCCESS); if (M.p[p].my > 1) { M.idle += M.p[p].my - 1; set(p, 1); } M.p[p].maxpar = 1; });
            add(p, "SetMaxParallelism(3)", []{ return DLB_SetMaxParallelism(3); }, [=](long r) { rc("SetMaxParallelism", r, DLB_SUCCESS); if (M.p[p].my > 3) { M.idle += M.p[p].my - 3; set(p, 3); } M.p[p].maxpar = 3; });
            add(p, "UnsetMaxParallelism", []{ return DLB_UnsetMaxParallelism(); }, [=](long r) { rc("UnsetMaxParallelism", r, DLB_SUCCESS); M.p[p].maxpar = 0; });
        }
        add(p, "IntoBlocking", []{ return shim_into(1); }, [=](long) { if (!M.p[p].on) return; int k = C.keep ? 1 : 0; if (as) a_lend(p, k, "IntoBlocking", M.p[p].my > k ? DLB_SUCCESS : M.p[p].my == k ? DLB_NOUPDT : DLB_ERR_PERM); else { M.idle += M.p[p].my - k; set(p, k); } }, false);
        add(p, "OutOfBlocking", []{ return shim_out(1); }, [=](long) { if (!M.p[p].on) return; if (as) a_reclaim(p, "OutOfBlocking", M.p[p].my < C.def[p] ? DLB_SUCCESS : DLB_NOUPDT); else m_reclaim(p, C.greedy); }, false);
        add(p, "Disable", []{ return DLB_Disable(); }, [=](long r) { rc("Disable", r, M.p[p].on ? DLB_SUCCESS : DLB_NOUPDT); if (!M.p[p].on) return; int was = M.p[p].my;
            if (as) { a_reset(p, "Disable"); self(p, was != C.def[p], "Disable"); } else m_reclaim(p, false); M.p[p].on = false; }, false);
        add(p, "Enable", []{ return DLB_Enable(); }, [=](long r) { if (as && !M.p[p].on && M.p[p].prev) { M.p[p].on = true; a_acquire(p, 0, "Enable", r, false); return; } rc("Enable", r, M.p[p].on ? DLB_NOUPDT : DLB_SUCCESS); M.p[p].on = true; }, false);
        if (life) {
            add(p, "Finalize", []{ return DLB_Finalize(); }, [=](long r) { rc("Finalize", r, DLB_SUCCESS); int was = M.p[p].my;
                if (as) { a_reset(p, "Finalize"); } else { M.idle -= C.def[p] - was; }
                M.p[p].init = false; memset(&M.p[p], 0, sizeof M.p[p]);
                bool any = false; for (int q = 0; q < C.np; ++q) any |= M.p[q].init; if (!any) { M.idle = 0; if (vn_shm_count()) bad("leftover", "%d shared memories left after the last process finalized", vn_shm_count()); }
                clear_got(); }, false);
            o.push_back({fmt("P%d.Init", p), [p]{ return !M.p[p].init; }, [=]{ clear_got(); do_init(p); }});
        }
    }
    mc::Limits l; l.depth = depth; l.max_states = 3000000;
    mc::explore_ops(o, invariant, l);
}
void mc_register() {
    auto J = [](const char *n, Cfg c, int d, bool life) { mc::job(n, [=]{ run(c, d + mc::level, life); }, 8); };
    Cfg a = {2, 4, {2, 2}, false, false, false}; J("poll.2x2", a, 5, false); J("poll.life", a, 4, true);
    Cfg g = a; g.greedy = true; J("poll.greedy", g, 5, false); g.keep = true; g.def[0] = 3; g.def[1] = 1; J("poll.greedy.keep", g, 4, true);
    Cfg k = {3, 6, {2, 3, 1}, false, false, true}; J("poll.3p", k, 4, false);
    Cfg b = {2, 4, {2, 2}, true, false, false}; J("async.2x2", b, 5, false); J("async.life", b, 4, true);
    Cfg e = {3, 6, {3, 1, 2}, true, false, true}; J("async.3p", e, 3, false); J("async.3p.life", e, 3, true);
    Cfg f = {3, 8, {4, 2, 2}, true, false, false}; J("async.3p.big", f, 3, false);
}
