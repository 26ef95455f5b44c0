/* LeWI with affinity masks: every sequence of API operations of 2-3 processes, executed on the real code,
 * is compared step by step with a reference machine of the documented CPU-sharing protocol. */
#include "hn.h"
extern "C" { long shim_into(long), shim_out(long); }
using mc::bad; using mc::fmt;
enum { MAXP = 3, MAXC = 8, MAXQ = 16 };
struct Cfg { int np, ncpu, ncore, nnode; Mask mask[MAXP]; bool async; bool postmortem, norespect; const char *aff; int maxpar; bool initall, drom, keep; };
static Cfg C;
enum St { DIS = 0, BUSY, LENT };
struct GReq { signed char p; unsigned char allowed; short n; };
struct Model {
    signed char owner[MAXC], guest[MAXC]; unsigned char st[MAXC]; signed char q[MAXC][8]; unsigned char nq[MAXC];
    GReq g[MAXQ]; short ng;
    struct { bool init, on; Mask mask; int maxpar; unsigned char prio[MAXC]; int nprio; bool stale; } p[MAXP];
    Mask using_[MAXP];                       /* what the callbacks told each process to use */
    bool queues, pm_public;                  /* post mortem CPUs are public */
    struct { Mask cur, fut; bool dirty; } d[MAXP];   /* DROM: mask in use and mask assigned */
};
struct Ev { signed char p; bool en; unsigned char c; };
static struct User { Model m; Ev got[64]; int ngot; Mask cbmask[MAXP]; int ncb[MAXP]; Mask tm[MAXP], rec[MAXP], pend[MAXP]; struct { int nt, nset, team, lent; Mask act, own; } o[MAXP]; } U;      /* part of the explored state */
static Model &M = U.m;
static std::vector<Ev> want;                  /* callbacks the reference expects of this operation */
static const signed char NOB = -1;

/* ---- real side: callbacks */
static void cb_en(int c, void*) { int p = G.cur_proc; if (U.ngot < 64) U.got[U.ngot++] = {(signed char)p, true, (unsigned char)c}; }
static void cb_dis(int c, void*) { int p = G.cur_proc; if (U.ngot < 64) U.got[U.ngot++] = {(signed char)p, false, (unsigned char)c}; }

static void cb_mask(const cpu_set_t *m, void*) { U.cbmask[G.cur_proc] = from_set(m); U.ncb[G.cur_proc]++; }
enum { ADM = 5 };
/* ---- reference machine */
static int core_of(int c) { return c / (C.ncpu / C.ncore); }
static bool smt() { return C.ncpu > C.ncore; }
static int node_of(int c) { return c / (C.ncpu / C.nnode); }
static Mask core_mask(int k) { int n = C.ncpu / C.ncore; return ((1UL << n) - 1) << (k * n); }
static Mask sysmask() { return (1UL << C.ncpu) - 1; }
static bool eligible(int p, int c) {
    if (!smt()) return M.owner[c] == p || M.guest[c] == p || M.guest[c] == NOB;
    for (int i = 0; i < C.ncpu; ++i) if (core_of(i) == core_of(c))
        if ((M.guest[i] != p && M.guest[i] != NOB) || (M.st[i] == BUSY && M.owner[i] != p)) return false;
    return true;
}
static bool occupied_cpu(int c) { return M.guest[c] != NOB && M.owner[c] != NOB && M.guest[c] != M.owner[c]; }
static bool occupied(int c) { if (!smt()) return occupied_cpu(c); for (int i = 0; i < C.ncpu; ++i) if (core_of(i) == core_of(c) && occupied_cpu(i)) return true; return false; }
static bool idle(int c) { return M.guest[c] == NOB && M.st[c] == LENT; }
static void EN(int p, int c) { want.push_back({(signed char)p, true, (unsigned char)c}); }
static void DI(int p, int c) { want.push_back({(signed char)p, false, (unsigned char)c}); }
static void qdel(int c, int i) { for (int k = i; k + 1 < M.nq[c]; ++k) M.q[c][k] = M.q[c][k+1]; M.q[c][--M.nq[c]] = 0; }
static void qremove(int c, int p) { for (int i = 0; i < M.nq[c]; ) if (M.q[c][i] == p) qdel(c, i); else ++i; }
static void gdel(int i) { for (int k = i; k + 1 < M.ng; ++k) M.g[k] = M.g[k+1]; M.g[--M.ng] = GReq{0,0,0}; }
static void gremove(int p) { for (int i = 0; i < M.ng; ) if (M.g[i].p == p) gdel(i); else ++i; }
static int enq(int c, int p) { if (M.nq[c] >= 7) return -1; M.q[c][M.nq[c]++] = p; return 0; }
static int next_guest(int c) {
    if (M.st[c] == BUSY) return M.owner[c];
    if (!M.queues || M.st[c] != LENT) return NOB;
    for (int i = 0; i < M.nq[c]; ++i) if (eligible(M.q[c][i], c)) { int p = M.q[c][i]; qdel(c, i); return p; }
    for (int i = 0; i < M.ng; ++i) if ((M.g[i].allowed >> c & 1) && eligible(M.g[i].p, c)) { int p = M.g[i].p; if (--M.g[i].n == 0) gdel(i); return p; }
    return NOB;
}
static void m_lend(int p, int c) {
    if (M.owner[c] == p) M.st[c] = LENT; else if (M.queues) qremove(c, p);
    if (M.guest[c] == p) M.guest[c] = NOB;
    if (M.guest[c] == NOB) {
        int g = next_guest(c);
        if (g != NOB) {
            M.guest[c] = g; EN(g, c);
            for (int i = 0; i < C.ncpu; ++i) if (i != c && core_of(i) == core_of(c) && M.guest[i] == NOB) { g = next_guest(i); if (g != NOB) { M.guest[i] = g; EN(g, i); } }
        }
    }
}
static int m_reclaim(int p, int c) {
    if (M.owner[c] != p) return DLB_ERR_PERM;
    M.st[c] = BUSY;
    if (M.guest[c] == p) return DLB_NOUPDT;
    if (M.guest[c] == NOB) { M.guest[c] = p; EN(p, c); return DLB_SUCCESS; }
    DI(M.guest[c], c); EN(p, c); return DLB_NOTED;
}
static int m_acquire(int p, int c) {
    if (M.guest[c] == p) return DLB_NOUPDT;
    if (M.owner[c] == p) return m_reclaim(p, c);
    if (M.guest[c] == NOB && M.st[c] == LENT && eligible(p, c)) { M.guest[c] = p; EN(p, c); return DLB_SUCCESS; }
    if (M.st[c] != DIS) { if (M.queues) return enq(c, p) == 0 ? DLB_NOTED : DLB_ERR_REQST; return DLB_NOUPDT; }
    return DLB_ERR_PERM;
}
static int m_borrow(int p, int c) {
    if (M.guest[c] != NOB || !eligible(p, c)) return DLB_NOUPDT;
    if (M.owner[c] == p) M.st[c] = BUSY; else if (M.st[c] != LENT) return DLB_NOUPDT;
    M.guest[c] = p; EN(p, c); return DLB_SUCCESS;
}
/* apply a per-CPU operation along a priority list; with SMT whole cores are taken */
static int m_list(int p, const std::vector<int> &l, int *n, int (*f)(int,int)) {
    int err = DLB_NOUPDT, prev = -1, left = n ? *n : 1 << 20;
    for (int c : l) {
        if (left <= 0) break;
        if (smt()) {
            if (core_of(c) == prev) continue;
            prev = core_of(c);
            int e = DLB_NOUPDT, k = 0;
            for (int i = 0; i < C.ncpu; ++i) if (core_of(i) == prev) {
                int r = f(p, i);
                if (r == DLB_SUCCESS || r == DLB_NOTED) { ++k; if (e != DLB_NOTED) e = r; }
                else if (M.guest[i] != p) break;
            }
            if (e == DLB_SUCCESS || e == DLB_NOTED) { left -= k; if (err != DLB_NOTED) err = e; }
        } else { int r = f(p, c); if (r == DLB_SUCCESS || r == DLB_NOTED) { --left; if (err != DLB_NOTED) err = r; } }
    }
    if (n) *n = left;
    return err;
}
static void m_prio(int p) {          /* owned, then nearby (from the first owned upwards, wrapping), then the rest */
    Mask own = M.p[p].mask, near_ = 0; for (int c = 0; c < C.ncpu; ++c) if (own >> c & 1) for (int i = 0; i < C.ncpu; ++i) if (node_of(i) == node_of(c)) near_ |= 1UL << i;
    int n = 0; int first = own ? __builtin_ctzl(own) : 0;
    bool nearonly = !strcmp(C.aff, "nearby-only"), spread = !strcmp(C.aff, "spread-ifempty");
    memset(M.p[p].prio, 0, sizeof M.p[p].prio);
    for (int c = 0; c < C.ncpu; ++c) if (own >> c & 1) M.p[p].prio[n++] = c;
    if (!spread) {
        for (int k = 0; k < C.ncpu; ++k) { int c = (first + k) % C.ncpu; if ((near_ & ~own) >> c & 1) M.p[p].prio[n++] = c; }
        if (!nearonly) for (int c = 0; c < C.ncpu; ++c) if (!(near_ >> c & 1)) M.p[p].prio[n++] = c;
    }
    M.p[p].nprio = n;
}
static std::vector<int> subset(int p, Mask m) { std::vector<int> v; for (int i = 0; i < M.p[p].nprio; ++i) if (m >> M.p[p].prio[i] & 1) v.push_back(M.p[p].prio[i]); return v; }
static int par_room(int p, const std::vector<int> &l) { int n = M.p[p].maxpar; for (int c : l) if (M.guest[c] == p) --n; return n; }

static int m_borrow_n(int p, int n, Mask mask) {      /* n==0: no limit */
    std::vector<int> l = subset(p, mask); int room = 0;
    if (M.p[p].maxpar) { room = par_room(p, l); if (room <= 0) return DLB_NOUPDT; }
    int k = n > 0 ? n : C.ncpu; if (room > 0 && room < k) k = room;
    int e = m_list(p, l, &k, m_borrow);
    if (!strcmp(C.aff, "spread-ifempty") && k > 0) {
        std::vector<int> v; for (int nd = 0; nd < C.nnode; ++nd) { bool all = true; for (int c = 0; c < C.ncpu; ++c) if (node_of(c) == nd && !idle(c)) all = false; if (all) for (int c = 0; c < C.ncpu; ++c) if (node_of(c) == nd) v.push_back(c); }
        if (m_list(p, v, &k, m_borrow) == DLB_SUCCESS) e = DLB_SUCCESS;
    }
    return e;
}
static int m_acquire_n(int p, int n, Mask mask) {
    std::vector<int> l = subset(p, mask); int room = 0;
    if (M.p[p].maxpar) { room = par_room(p, l); if (room <= 0) return DLB_NOUPDT; }
    int k = n > 0 ? n : C.ncpu; if (room > 0 && room < k) k = room;
    std::vector<int> oi, on, no;
    for (int c : l) { if (M.owner[c] == p) { if (M.guest[c] == NOB) oi.push_back(c); else if (M.guest[c] != p) on.push_back(c); } else if (M.guest[c] == NOB) no.push_back(c); }
    int err = DLB_NOUPDT;
    for (auto *v : {&oi, &on}) { int e = m_list(p, *v, &k, m_acquire); if ((e == DLB_SUCCESS || e == DLB_NOTED) && err != DLB_NOTED) err = e; }
    { int e = m_list(p, no, &k, m_borrow); if (e == DLB_SUCCESS && err != DLB_NOTED) err = e; }
    if (M.queues && n > 0 && k > 0) {
        unsigned char al = 0; for (int c : l) al |= 1 << c;
        int i; for (i = 0; i < M.ng; ++i) if (M.g[i].p == p && M.g[i].allowed == al) { M.g[i].n += k; break; }
        if (i == M.ng) { if (M.ng >= MAXQ) { bad("harness", "model queue"); return 0; } M.g[M.ng++] = {(signed char)p, al, (short)k}; }
        err = DLB_NOTED;
    }
    return err;
}
static int m_return(int p, int c) {
    if (M.owner[c] == p || M.guest[c] != p || (M.st[c] == LENT && eligible(p, c))) return DLB_NOUPDT;
    M.guest[c] = M.st[c] == BUSY ? M.owner[c] : NOB;
    DI(p, c); return DLB_SUCCESS;
}
/* async: a disabled guest gives the CPU back and is queued to get it again */
static void m_async_returns(int self) {
    if (!C.async) return;
    for (size_t i = 0; i < want.size(); ++i) if (!want[i].en && want[i].p != self) {
        int c = want[i].c; M.guest[c] = M.st[c] == BUSY ? M.owner[c] : NOB; enq(c, want[i].p);
    }
}
/* ---- comparison of the callbacks */
static void settle(int self, bool resolved) {
    /* polling: other processes are never called; and only resolved tasks produce calls */
    std::vector<Ev> exp;
    for (auto &e : want) if ((e.p == self && resolved) || (e.p != self && C.async && M.p[e.p].init && resolved)) exp.push_back(e);
    /* compare as multisets of (process, cpu, enable) with order per (process,cpu) */
    std::vector<Ev> got(U.got, U.got + U.ngot);
    auto key = [](const Ev &e) { return e.p * 1000 + e.c * 2 + e.en; };
    std::vector<int> a, b; for (auto &e : exp) a.push_back(key(e)); for (auto &e : got) b.push_back(key(e));
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    if (smt()) for (auto *v : {&a, &b}) v->erase(std::unique(v->begin(), v->end()), v->end());   /* acquiring a core twice in one call tells twice the same */
    auto show = [](const std::vector<Ev> &v) { std::string s; for (auto &e : v) s += fmt("%s(P%d,cpu%d) ", e.en ? "enable" : "disable", e.p, e.c); return s.empty() ? std::string("none") : s; };
    if (a != b) bad("callbacks", "callbacks delivered: %s; protocol requires: %s", show(got).c_str(), show(exp).c_str());
    for (auto &e : got) { if (e.en) { M.using_[e.p] |= 1UL << e.c; U.pend[e.p] &= ~(1UL << e.c); } else M.using_[e.p] &= ~(1UL << e.c); }
    memset(U.got, 0, sizeof U.got); U.ngot = 0; want.clear();
}
static std::string mshow() { std::string s; for (int c = 0; c < C.ncpu; ++c) s += fmt("cpu%d:owner=%d,guest=%d,%s ", c, M.owner[c], M.guest[c], M.st[c] == DIS ? "disabled" : M.st[c] == BUSY ? "busy" : "lent"); return s; }

static void check_rc(const char *op, long got, long want_) { if (got != want_) bad("result", "%s returned %s, protocol requires %s (%s)", op, errname(got), errname(want_), mshow().c_str()); }
static bool leaving(int p, int c) { return M.d[p].dirty && (M.d[p].cur & ~M.d[p].fut) >> c & 1; }   /* stolen by DROM, and the process has not polled yet */
/* the safety core of the protocol, on what the processes have been told */
static void invariant() {
    for (int c = 0; c < C.ncpu; ++c) {
        std::vector<int> us; for (int p = 0; p < C.np; ++p) if (M.p[p].init && ((M.using_[p] & ~U.tm[p] & ~U.pend[p]) >> c & 1) && !leaving(p, c)) us.push_back(p);
        if (us.size() <= 1) continue;
        if (C.async) { bad("exclusive", "cpu %d used by two processes in asynchronous mode: %s", c, mshow().c_str()); return; }
        if (us.size() > 2 || M.st[c] != BUSY || !(M.owner[c] == us[0] || M.owner[c] == us[1]) ) { bad("exclusive", "cpu %d used by P%d and P%d although it is not being reclaimed: %s", c, us[0], us[1], mshow().c_str()); return; }
    }
    for (int p = 0; p < C.np; ++p) if (M.p[p].init && M.p[p].on) for (int c = 0; c < C.ncpu; ++c) {
        bool u = M.using_[p] >> c & 1;
        if (u && !((U.tm[p] | U.pend[p]) >> c & 1) && !leaving(p, c) && M.guest[c] != p && !(M.owner[c] == p && M.st[c] == BUSY)) { bad("exclusive", "P%d uses cpu %d without holding it: %s", p, c, mshow().c_str()); return; }
        if (!u && M.guest[c] == p) { bad("exclusive", "cpu %d is held by P%d, which was never told: %s", c, p, mshow().c_str()); return; }
    }
}
/* every process's view through the public query (asked after every operation) */
static void probe() {
    for (int p = 0; p < C.np && !mc::is_bad(); ++p) if (M.p[p].init && M.p[p].on) for (int c = 0; c < C.ncpu; ++c) {
        /* a CPU nobody holds may be claimed through the query: those are examined by the operations themselves */
        if (M.guest[c] == NOB) continue;
        long r = IN(p, DLB_CheckCpuAvailability(c));
        long w = M.owner[c] != p && M.st[c] != LENT ? DLB_ERR_PERM : M.guest[c] == p ? DLB_SUCCESS : M.owner[c] == p && M.st[c] == LENT ? DLB_NOUPDT : DLB_NOTED;
        if (r != w) { bad("query", "availability of cpu %d for P%d reported as %s, should be %s (%s)", c, p, errname(r), errname(w), mshow().c_str()); }
    }
}
static long call(int p, const std::function<long()> &f) { long r = in_proc(p, f); if (C.async && !mc::is_bad()) vn_run_helpers(-1); return r; }
#define R(p, expr) call(p, [&]() -> long { return (long)(expr); })

static int do_init(int p, bool expect) {
    std::string a = std::string("--lewi --verbose-format= ") + "--lewi-affinity=" + C.aff;
    if (C.async) a += " --mode=async"; if (C.maxpar) a += fmt(" --lewi-max-parallelism=%d", C.maxpar);
    if (C.drom) a += " --drom";
    if (C.keep) a += " --lewi-keep-one-cpu"; if (C.norespect) a += " --lewi-respect-cpuset=no"; if (C.postmortem) a += " --debug-opts=lend-post-mortem";
    a += " --quiet";
    topo(p, C.ncpu, C.ncore, C.nnode);
    cpu_set_t s = to_set(C.mask[p]);
    long r = R(p, DLB_Init(0, &s, a.c_str()));
    /* reference */
    bool any = false; for (int i = 0; i < C.np; ++i) any |= M.p[i].init;
    if (!any) { for (int c = 0; c < C.ncpu; ++c) { M.owner[c] = M.guest[c] = NOB; M.st[c] = C.norespect ? LENT : DIS; M.nq[c] = 0; memset(M.q[c], 0, 8); } M.ng = 0; memset(M.g, 0, sizeof M.g); M.queues = false; }
    long w = DLB_SUCCESS;
    for (int c = 0; c < C.ncpu; ++c) if ((C.mask[p] >> c & 1) && M.owner[c] != NOB) w = DLB_ERR_PERM;
    if (C.drom) for (int i = 0; i < C.np; ++i) if (M.p[i].init && (C.mask[p] & M.d[i].fut)) w = DLB_ERR_PERM;
    check_rc("DLB_Init", r, w);
    if (w == DLB_SUCCESS) {
        for (int c = 0; c < C.ncpu; ++c) if (C.mask[p] >> c & 1) { M.owner[c] = p; M.st[c] = BUSY; if (M.guest[c] == NOB) M.guest[c] = p; M.nq[c] = 0; memset(M.q[c], 0, 8); }
        M.p[p].init = M.p[p].on = true; M.p[p].mask = C.mask[p]; M.p[p].maxpar = C.maxpar; m_prio(p);
        if (C.async) { M.queues = true; for (int c = 0; c < C.ncpu; ++c) if (M.owner[c] == p && M.guest[c] != p) m_reclaim(p, c); std::vector<Ev> w2; for (auto &e : want) if (e.p != p) w2.push_back(e); want = w2; m_async_returns(p); }
        M.using_[p] = C.mask[p]; if (C.drom) { M.d[p].cur = M.d[p].fut = C.mask[p]; M.d[p].dirty = false; R(p, DLB_CallbackSet(dlb_callback_set_process_mask, (dlb_callback_t)cb_mask, nullptr)); }
        R(p, DLB_CallbackSet(dlb_callback_enable_cpu, (dlb_callback_t)cb_en, nullptr));
        R(p, DLB_CallbackSet(dlb_callback_disable_cpu, (dlb_callback_t)cb_dis, nullptr));
    }
    settle(p, true);
    return r;
}
static void do_finalize(int p) {
    long r = R(p, DLB_Finalize());
    check_rc("DLB_Finalize", r, DLB_SUCCESS);
    M.p[p].init = M.p[p].on = false; M.using_[p] = 0; U.pend[p] = 0; M.d[p].cur = M.d[p].fut = 0; M.d[p].dirty = false;
    if (M.queues) { gremove(p); for (int c = 0; c < C.ncpu; ++c) if (M.owner[c] != p) qremove(c, p); }
    for (int c = 0; c < C.ncpu; ++c) {
        if (M.owner[c] == p) {
            if (C.postmortem || C.norespect) m_lend(p, c);
            else { m_reclaim(p, c); if (M.guest[c] == p) M.guest[c] = NOB; M.st[c] = DIS; }
            M.owner[c] = NOB;
        } else if (M.guest[c] == p) m_lend(p, c);
    }
    /* a CPU whose owner has gone keeps its guest until the guest gives it back (polling) or is told (async) */
    if (C.async) for (size_t i = 0; i < want.size(); ++i) if (!want[i].en && want[i].p != p) { int c = want[i].c; M.guest[c] = NOB; enq(c, want[i].p); }
    for (int c = 0; c < C.ncpu; ++c) if (M.st[c] == DIS && M.owner[c] == NOB) { /* requests on a disabled CPU vanish with it */ }
    std::vector<Ev> w2; for (auto &e : want) if (e.p != p) w2.push_back(e); want = w2;
    settle(p, true);
    bool any = false; for (int i = 0; i < C.np; ++i) any |= M.p[i].init;
    if (!any) { if (vn_shm_count()) bad("leftover", "%d shared memories left after the last process finalized", vn_shm_count()); Model z; memset(&z, 0, sizeof z); memcpy(&M, &z, sizeof z); for (int c = 0; c < MAXC; ++c) M.owner[c] = M.guest[c] = NOB; for (int i = 0; i < 12; ++i); }
}
static bool live(int p) { return M.p[p].init && !U.tm[p]; }
static int PID(int p) { return 1001 + p; }
static void m_new_mask(int p, Mask m) {
    for (int c = 0; c < C.ncpu; ++c) {
        if (m >> c & 1) { if (M.owner[c] == p) continue; M.owner[c] = p; M.st[c] = BUSY; qremove(c, p); if (M.guest[c] == NOB) M.guest[c] = p; if (M.guest[c] != p) DI(M.guest[c], c); EN(p, c); }
        else if (M.owner[c] == p) { M.owner[c] = NOB; M.st[c] = DIS; if (M.guest[c] == p) { M.guest[c] = NOB; DI(p, c); } }
        else if (M.guest[c] == p && M.st[c] == BUSY) m_return(p, c);
    }
    for (int c = 0; c < C.ncpu; ++c) if ((U.pend[p] >> c & 1) && M.owner[c] != p) { DI(p, c); U.pend[p] &= ~(1UL << c); }
}
/* the process learns its new mask: it takes the CPUs it gets and leaves those it loses */
static void new_mask(int p, bool upd) {
    if (U.ncb[p] != (upd ? 1 : 0) || (upd && U.cbmask[p] != M.d[p].fut)) bad("process mask", "the set_process_mask callback was called %d times with %s, should be %d with %s", U.ncb[p], mstr(U.cbmask[p]).c_str(), upd, mstr(M.d[p].fut).c_str());
    U.ncb[p] = 0; U.cbmask[p] = 0; if (!upd) { settle(p, true); return; }
    Mask m = M.d[p].cur = M.d[p].fut; M.d[p].dirty = false; M.p[p].mask = m; m_prio(p);
    m_new_mask(p, m);
    m_async_returns(p); settle(p, true);
    for (int c = 0; c < C.ncpu; ++c) if (!(m >> c & 1) && M.guest[c] != p) M.using_[p] &= ~(1UL << c);   /* the mask callback tells it to leave them */
}
static void build_ops(std::vector<mc::Op> &o, unsigned sel) {
    auto add = [&](int p, const std::string &n, std::function<long()> real, std::function<long(bool*)> model) {
        o.push_back({fmt("P%d.%s", p, n.c_str()), [p]{ return live(p); }, [=]{
            want.clear();
            long r = R(p, real());
            if (mc::is_bad()) return;
            bool resolved = true;
            long w;
            if (!M.p[p].on) { w = DLB_ERR_DISBLD; } else { w = model(&resolved); m_async_returns(p); }
            if (r == DLB_ERR_PERM && n == "Reclaim" && M.d[p].dirty) w = r;     /* it has lost CPUs and does not know yet */
            check_rc(n.c_str(), r, w);
            settle(p, resolved);
        }});
    };
    enum { LEND = 1, RECL = 2, ACQ = 4, BOR = 8, RET = 16, MISC = 32, LIFE = 64, MASKS = 128, DROM = 256, CHECK = 512, RANGE = 1024, MPI = 2048 };
    for (int p = 0; p < C.np; ++p) {
        Mask pm = C.mask[p];
        if (sel & LEND) {
            add(p, "Lend", []{ return DLB_Lend(); }, [=](bool *res) { for (int c = 0; c < C.ncpu; ++c) m_lend(p, c); *res = C.async; M.using_[p] = 0; U.pend[p] = 0; return DLB_SUCCESS; });
            for (int c = 0; c < C.ncpu; ++c) add(p, fmt("LendCpu(%d)", c), [=]{ return DLB_LendCpu(c); }, [=](bool *res) { m_lend(p, c); *res = C.async; U.pend[p] &= ~(1UL << c); M.using_[p] &= ~(1UL << c); return DLB_SUCCESS; });
            if (sel & MASKS) { Mask m = pm; add(p, "LendCpuMask" + mstr(m), [=]{ cpu_set_t s = to_set(m); return DLB_LendCpuMask(&s); }, [=](bool *res) { for (int c = 0; c < C.ncpu; ++c) if (m >> c & 1) m_lend(p, c); *res = C.async; M.using_[p] &= ~m; U.pend[p] &= ~m; return DLB_SUCCESS; }); }
        }
        auto reclaim_mask = [=](Mask m) { int e = DLB_NOUPDT; Mask todo = 0; for (int c = 0; c < C.ncpu; ++c) if ((m >> c & 1) && (idle(c) || occupied(c))) todo |= 1UL << c;
            for (int c = 0; c < C.ncpu; ++c) if (todo >> c & 1) { int r = m_reclaim(p, c); if (r == DLB_ERR_PERM) e = r; else if (r == DLB_NOTED) e = e < 0 ? e : DLB_NOTED; else if (r == DLB_SUCCESS) e = e == DLB_NOUPDT ? DLB_SUCCESS : e; } return e; };
        if (sel & RECL) {
            add(p, "Reclaim", []{ return DLB_Reclaim(); }, [=](bool*) { return reclaim_mask(M.p[p].mask); });
            for (int c = 0; c < C.ncpu; ++c) add(p, fmt("ReclaimCpu(%d)", c), [=]{ return DLB_ReclaimCpu(c); }, [=](bool *res) { int r = m_reclaim(p, c); *res = r == DLB_SUCCESS || r == DLB_NOTED;
                if (r == DLB_NOTED && smt()) for (int i = 0; i < C.ncpu; ++i) if (i != c && core_of(i) == core_of(c) && M.guest[i] != p && M.guest[i] != NOB) DI(M.guest[i], i);
                return r; });
            for (int n = 1; n <= 2; ++n) add(p, fmt("ReclaimCpus(%d)", n), [=]{ return DLB_ReclaimCpus(n); }, [=](bool *res) { int e = DLB_NOUPDT, left = n;
                for (int k = 0; k < C.ncore && left > 0; ++k) { int le = DLB_NOUPDT, num = 0; for (int c = 0; c < C.ncpu; ++c) if (core_of(c) == k) { int r = m_reclaim(p, c); if (r == DLB_SUCCESS || r == DLB_NOTED) { ++num; if (le != DLB_NOTED) le = r; } else if (M.guest[c] != p) break; }
                    if (le == DLB_NOTED) { e = DLB_NOTED; left -= num; } else if (le == DLB_SUCCESS) { if (e != DLB_NOTED) e = DLB_SUCCESS; left -= num; } }
                *res = e == DLB_SUCCESS || e == DLB_NOTED; return e; });
            if (sel & MASKS) { Mask m = sysmask(); add(p, "ReclaimCpuMask" + mstr(m), [=]{ cpu_set_t s = to_set(m); return DLB_ReclaimCpuMask(&s); }, [=](bool*) { return reclaim_mask(m); }); }
        }
        if (sel & ACQ) {
            for (int c = 0; c < C.ncpu; ++c) add(p, fmt("AcquireCpu(%d)", c), [=]{ return DLB_AcquireCpu(c); }, [=](bool *res) { int r = m_acquire(p, c); *res = r == DLB_SUCCESS || r == DLB_NOTED; return r; });
            for (int n = 0; n <= 2; ++n) add(p, fmt("AcquireCpus(%d)", n), [=]{ return DLB_AcquireCpus(n); }, [=](bool *res) -> long { if (n == 0) { gremove(p); for (int c = 0; c < C.ncpu; ++c) qremove(c, p); return DLB_SUCCESS; } int r = m_acquire_n(p, n, sysmask()); *res = r != DLB_NOUPDT; return r; });
            if (sel & MASKS) { Mask m = sysmask() & ~1UL; add(p, "AcquireCpusInMask(1," + mstr(m) + ")", [=]{ cpu_set_t s = to_set(m); return DLB_AcquireCpusInMask(1, &s); }, [=](bool *res) { int r = m_acquire_n(p, 1, m); *res = r != DLB_NOUPDT; return r; });
                Mask m2 = sysmask(); add(p, "AcquireCpuMask" + mstr(m2), [=]{ cpu_set_t s = to_set(m2); return DLB_AcquireCpuMask(&s); }, [=](bool *res) { int r = m_acquire_n(p, 0, m2); *res = r != DLB_NOUPDT; return r; }); }
        }
        if (sel & BOR) {
            add(p, "Borrow", []{ return DLB_Borrow(); }, [=](bool*) { return m_borrow_n(p, 0, sysmask()); });
            for (int c = 0; c < C.ncpu; ++c) add(p, fmt("BorrowCpu(%d)", c), [=]{ return DLB_BorrowCpu(c); }, [=](bool *res) { int r = m_borrow(p, c); return r; });
            add(p, "BorrowCpus(1)", []{ return DLB_BorrowCpus(1); }, [=](bool*) { return m_borrow_n(p, 1, sysmask()); });
            if (sel & MASKS) { Mask m = sysmask() & ~1UL; add(p, "BorrowCpusInMask(1," + mstr(m) + ")", [=]{ cpu_set_t s = to_set(m); return DLB_BorrowCpusInMask(1, &s); }, [=](bool*) { return m_borrow_n(p, 1, m); });
                Mask m2 = 1; add(p, "BorrowCpuMask" + mstr(m2), [=]{ cpu_set_t s = to_set(m2); return DLB_BorrowCpuMask(&s); }, [=](bool*) { return m_borrow_n(p, 0, m2); }); }
        }
        auto lost = [=](Mask m) { bool any = false; for (int c = 0; c < C.ncpu; ++c) if (m >> c & 1) { DI(p, c); U.pend[p] &= ~(1UL << c); any = true; mc::outcome("CPU lost during a blocking call is given up"); } return any; };
        if (sel & RET) {
            add(p, "Return", []{ return DLB_Return(); }, [=](bool*) -> long { if (C.async) return DLB_ERR_NOCOMP; int e = DLB_NOUPDT; Mask oc = 0; for (int c = 0; c < C.ncpu; ++c) if (occupied(c)) oc |= 1UL << c;   /* CPUs nobody owns are not asked for by anyone */
                for (int c = 0; c < C.ncpu; ++c) if ((oc >> c & 1) && m_return(p, c) == DLB_SUCCESS) e = DLB_SUCCESS; return lost(U.pend[p]) ? DLB_SUCCESS : e; });
            if (!C.async && (sel & MASKS)) for (Mask m : {sysmask(), (Mask)1, (Mask)2}) { add(p, "ReturnCpuMask" + mstr(m), [=]{ cpu_set_t s = to_set(m); return DLB_ReturnCpuMask(&s); }, [=](bool*) -> long { int e = DLB_NOUPDT; Mask oc = 0; for (int c = 0; c < C.ncpu; ++c) if (occupied(c)) oc |= 1UL << c; for (int c = 0; c < C.ncpu; ++c) if ((oc & m) >> c & 1 && m_return(p, c) == DLB_SUCCESS) e = DLB_SUCCESS; return lost(U.pend[p] & m) ? DLB_SUCCESS : e; }); }
            if (!C.async) for (int c = 0; c < C.ncpu; ++c) add(p, fmt("ReturnCpu(%d)", c), [=]{ return DLB_ReturnCpu(c); }, [=](bool*) -> long { if (lost(U.pend[p] & 1UL << c)) return DLB_SUCCESS; if (M.guest[c] != p) return DLB_ERR_PERM; return m_return(p, c); });
        }
        if (sel & MISC) {
            add(p, "SetMaxParallelism(1)", []{ return DLB_SetMaxParallelism(1); }, [=](bool*) { M.p[p].maxpar = 1; int owned = 0, held = 0; std::vector<int> g;
                for (int c = 0; c < C.ncpu; ++c) if (M.owner[c] == p || M.guest[c] == p) ++held;
                if (held > 1 && M.queues) { gremove(p); for (int c = 0; c < C.ncpu; ++c) qremove(c, p); }
                for (int c = 0; c < C.ncpu; ++c) { if (M.owner[c] == p) { if (++owned > 1) { m_lend(p, c); DI(p, c); } } else if (M.guest[c] == p) g.push_back(c); }
                for (size_t i = 0; i < g.size(); ++i) if (1 < owned + (int)i + 1) { m_lend(p, g[i]); DI(p, g[i]); } return DLB_SUCCESS; });
            add(p, "UnsetMaxParallelism", []{ return DLB_UnsetMaxParallelism(); }, [=](bool*) { M.p[p].maxpar = 0; return DLB_SUCCESS; });
            o.push_back({fmt("P%d.Disable", p), [p]{ return live(p); }, [=]{ want.clear(); long r = R(p, DLB_Disable()); long w = DLB_NOUPDT;
                if (M.p[p].on) { M.p[p].on = false; w = DLB_SUCCESS; if (M.queues) { gremove(p); for (int c = 0; c < C.ncpu; ++c) if (M.owner[c] != p) qremove(c, p); }
                    for (int c = 0; c < C.ncpu; ++c) { if (M.owner[c] == p) m_reclaim(p, c); else if (M.guest[c] == p) { m_lend(p, c); DI(p, c); } } lost(U.pend[p]); m_async_returns(p); }
                check_rc("DLB_Disable", r, w); settle(p, true); }});
            o.push_back({fmt("P%d.Enable", p), [p]{ return live(p); }, [=]{ want.clear(); long r = R(p, DLB_Enable()); long w = M.p[p].on ? DLB_NOUPDT : DLB_SUCCESS; M.p[p].on = true; check_rc("DLB_Enable", r, w); settle(p, true); }});
        }
        if (sel & CHECK) for (int c = 0; c < C.ncpu; ++c) add(p, fmt("CheckCpuAvailability(%d)", c), [=]{ return DLB_CheckCpuAvailability(c); }, [=](bool*) -> long {
            if (M.owner[c] != p && M.st[c] != LENT) return DLB_ERR_PERM; if (M.guest[c] == p) return DLB_SUCCESS;
            if (M.guest[c] == NOB && eligible(p, c)) { M.guest[c] = p; M.using_[p] |= 1UL << c; U.pend[p] &= ~(1UL << c); mc::outcome("CPU obtained by asking"); return DLB_SUCCESS; }
            return M.owner[c] == p && M.st[c] == LENT && M.guest[c] != NOB ? DLB_NOUPDT : DLB_NOTED; });
        if (sel & RANGE) {
            for (int c : {-1, C.ncpu, C.ncpu + 100, 2000}) { auto perm = [](bool *res) -> long { *res = false; return DLB_ERR_PERM; };
                add(p, fmt("LendCpu(%d)", c), [=]{ return DLB_LendCpu(c); }, perm); add(p, fmt("ReclaimCpu(%d)", c), [=]{ return DLB_ReclaimCpu(c); }, perm); add(p, fmt("AcquireCpu(%d)", c), [=]{ return DLB_AcquireCpu(c); }, perm);
                add(p, fmt("BorrowCpu(%d)", c), [=]{ return DLB_BorrowCpu(c); }, perm); if (!C.async) add(p, fmt("ReturnCpu(%d)", c), [=]{ return DLB_ReturnCpu(c); }, perm); add(p, fmt("CheckCpu(%d)", c), [=]{ return DLB_CheckCpuAvailability(c); }, perm); }
            static cpu_set_t full; for (int i = 0; i < CPU_SETSIZE; ++i) CPU_SET(i, &full);
            add(p, "LendCpuMask(full)", []{ return DLB_LendCpuMask(&full); }, [=](bool *res) { for (int c = 0; c < C.ncpu; ++c) m_lend(p, c); *res = C.async; M.using_[p] = 0; return DLB_SUCCESS; });
            add(p, "ReclaimCpuMask(full)", []{ return DLB_ReclaimCpuMask(&full); }, [=](bool*) { return reclaim_mask(sysmask()); });
            add(p, "AcquireCpuMask(full)", []{ return DLB_AcquireCpuMask(&full); }, [=](bool *res) { int r = m_acquire_n(p, 0, sysmask()); *res = r != DLB_NOUPDT; return r; });
            add(p, "BorrowCpuMask(full)", []{ return DLB_BorrowCpuMask(&full); }, [=](bool*) { return m_borrow_n(p, 0, sysmask()); });
            add(p, "BorrowCpusInMask(1,none)", []{ cpu_set_t s = to_set(0); return DLB_BorrowCpusInMask(1, &s); }, [=](bool*) { return DLB_NOUPDT; });
            if (!C.async) add(p, "ReturnCpuMask(full)", []{ return DLB_ReturnCpuMask(&full); }, [=](bool*) -> long { int e = DLB_NOUPDT; Mask oc = 0; for (int c = 0; c < C.ncpu; ++c) if (occupied(c)) oc |= 1UL << c; for (int c = 0; c < C.ncpu; ++c) if ((oc >> c & 1) && m_return(p, c) == DLB_SUCCESS) e = DLB_SUCCESS; return e; });
            if (!C.async) add(p, "ReturnCpuMask(0)", []{ cpu_set_t s = to_set(1); return DLB_ReturnCpuMask(&s); }, [=](bool*) -> long { return occupied(0) ? m_return(p, 0) : DLB_NOUPDT; });
        }
        if (sel & DROM) {
            for (Mask m = 1; m <= sysmask(); ++m) if (m == 1 || m == 2 || m == 3 || m == 6 || m == 7 || m == 4 || m == 8 || m == 12) {
                auto can = [=] { if (!live(p) || M.d[p].dirty) return false; for (int i = 0; i < C.np; ++i) if (i != p && M.p[i].init && (m & ~M.d[p].fut & (M.d[i].cur | M.d[i].fut)) && M.d[i].dirty) return false; return true; };
                auto given = [=] { for (int i = 0; i < C.np; ++i) if (i != p && (M.d[i].fut & m)) { M.d[i].fut &= ~m; M.d[i].dirty = true; mc::outcome("CPU moved by DROM"); } if (M.d[p].fut != m) { M.d[p].fut = m; M.d[p].dirty = true; } };
                o.push_back({fmt("A.Set(P%d,%s)", p, mstr(m).c_str()), can, [=]{ cpu_set_t s = to_set(m); long r = call(ADM, [&]() -> long { return DLB_DROM_SetProcessMask(PID(p), &s, (dlb_drom_flags_t)0); }); if (mc::is_bad()) return; check_rc("SetProcessMask", r, DLB_SUCCESS); given(); }});
                if (m == 2 || m == 7 || m == 4) o.push_back({fmt("P%d.Set(self,%s)", p, mstr(m).c_str()), can, [=]{ want.clear(); U.ncb[p] = 0; cpu_set_t s = to_set(m); long r = R(p, DLB_DROM_SetProcessMask(0, &s, (dlb_drom_flags_t)0)); if (mc::is_bad()) return; check_rc("SetProcessMask", r, DLB_SUCCESS); given(); new_mask(p, true); }});
            }
            o.push_back({fmt("P%d.PollDROM_Update", p), [=]{ return live(p); }, [=]{ want.clear(); U.ncb[p] = 0; long r = R(p, DLB_PollDROM_Update()); if (mc::is_bad()) return; check_rc("PollDROM_Update", r, M.d[p].dirty ? DLB_SUCCESS : DLB_NOUPDT); new_mask(p, M.d[p].dirty); }});
        }
        if (sel & MPI) {
            /* a thread bound to the CPUs tm (which it uses) waits in a blocking call: lend them; when it leaves: its own CPUs again, and the borrowed ones if still possible */
            for (Mask tm = 1; tm <= sysmask(); ++tm) if (tm == sysmask() || (popc(tm) <= 2 && (popc(tm) == 1 || tm == 3 || tm == 5 || tm == 6 || tm == 12))) o.push_back({fmt("P%d.into MPI%s", p, mstr(tm).c_str()), [=]{ return live(p) && (tm == sysmask() || !(tm & ~M.using_[p])); }, [=]{ want.clear();
                vn_thread &T = G.thr[vn_main_thread(p)]; T.affinity_set = 1; T.affinity[0] = tm; U.tm[p] = tm; Mask l = tm; if (C.keep) l &= ~core_mask(core_of(__builtin_ctzl(tm)));
                R(p, shim_into(1)); if (mc::is_bad()) return; U.rec[p] = 0; if (M.p[p].on) { U.rec[p] = U.pend[p]; for (int c = 0; c < C.ncpu; ++c) if (M.guest[c] == p) U.rec[p] |= 1UL << c; U.rec[p] &= l & ~M.p[p].mask; for (int c = 0; c < C.ncpu; ++c) if (l >> c & 1) m_lend(p, c); U.pend[p] &= ~l; if (tm & ~M.using_[p]) mc::outcome("thread bound to more CPUs than the process uses"); } settle(p, C.async); if (l) mc::outcome("blocking call"); }});
            o.push_back({fmt("P%d.out of MPI", p), [=]{ return M.p[p].init && U.tm[p]; }, [=]{ want.clear(); Mask l = U.tm[p]; if (C.keep) l &= ~core_mask(core_of(__builtin_ctzl(l))); Mask rec = U.rec[p] & ~M.p[p].mask; U.tm[p] = U.rec[p] = 0;
                R(p, shim_out(1)); if (mc::is_bad()) return; G.thr[vn_main_thread(p)].affinity_set = 0;
                if (M.p[p].on) { Mask own = l & M.p[p].mask; std::vector<int> ol; for (int c = 0; c < C.ncpu; ++c) if (own >> c & 1) ol.push_back(c); m_list(p, ol, nullptr, m_acquire); M.using_[p] |= own;
                    for (int c = 0; c < C.ncpu; ++c) if (rec >> c & 1) { if (M.guest[c] != p) m_borrow(p, c); if (M.guest[c] == p) M.using_[p] |= 1UL << c; }
                    std::vector<Ev> w; for (auto &e : want) if (e.p != p || !e.en || !(l >> e.c & 1)) { if (e.p == p && e.en) mc::outcome("rest of the core obtained"); w.push_back(e); } want = w; m_async_returns(p);
                    for (int c = 0; c < C.ncpu; ++c) if (rec >> c & 1) { if (M.guest[c] == p) mc::outcome("borrowed CPU kept after a blocking call"); else { mc::outcome("borrowed CPU lost during a blocking call"); if (C.async) DI(p, c); else U.pend[p] |= 1UL << c; } } }
                settle(p, true); }});
        }
        if (sel & LIFE) {
            o.push_back({fmt("P%d.Finalize", p), [p]{ return live(p); }, [=]{ want.clear(); do_finalize(p); }});
            o.push_back({fmt("P%d.Init", p), [p]{ return !M.p[p].init; }, [=]{ want.clear(); do_init(p, true); }});
        }
    }
}
static void run(Cfg c, unsigned sel, int depth, const std::vector<std::string> &prefix = {}) {
    C = c; memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; want.clear();
    for (int i = 0; i < MAXC; ++i) M.owner[i] = M.guest[i] = NOB;
    for (int p = 0; p < C.np; ++p) vn_spawn(1001 + p);
    if (C.drom) { while (vn_spawn(1100 + G.nprocs) < ADM) {} topo(ADM, C.ncpu, C.ncore, C.nnode); }
    if (C.initall) for (int p = 0; p < C.np && !mc::is_bad(); ++p) do_init(p, true);
    std::vector<mc::Op> ops; build_ops(ops, sel);
    for (auto &n : prefix) { bool f = false; for (auto &o : ops) if (o.name == n && !mc::is_bad()) { o.run(); f = true; } if (!f) bad("harness", "prefix %s", n.c_str()); }
    mc::Limits l; l.depth = depth; l.max_states = 4000000;
    mc::explore_ops(ops, []{ invariant(); if (!mc::is_bad()) probe(); }, l);
}

void mc_register() {
    enum { LEND = 1, RECL = 2, ACQ = 4, BOR = 8, RET = 16, MISC = 32, LIFE = 64, MASKS = 128, DROM = 256, CHECK = 512, RANGE = 1024, MPI = 2048 };
    auto J = [&](const char *name, Cfg c, unsigned sel, int d, std::vector<std::string> prefix = {}) { mc::job(name, [=]{ run(c, sel, d + mc::level, prefix); }, strstr(name, "async") ? 9 : 8); };
    Cfg a = {}; a.np = 2; a.ncpu = 4; a.ncore = 4; a.nnode = 1; a.mask[0] = 3; a.mask[1] = 12; a.aff = "auto"; a.initall = true;
    Cfg b = a; b.async = true;
    J("poll.2x2", a, LEND|RECL|ACQ|BOR|RET, 4);
    J("async.2x2", b, LEND|RECL|ACQ|BOR, 4);
    J("poll.misc", a, LEND|RECL|BOR|MISC, 4);
    J("async.misc", b, LEND|ACQ|MISC, 4);
    J("poll.life", a, LEND|RECL|BOR|RET|LIFE, 4);
    J("async.life", b, LEND|ACQ|LIFE, 4);
    J("poll.masks", a, LEND|RECL|ACQ|BOR|RET|MASKS, 3);
    J("async.masks", b, LEND|RECL|ACQ|BOR|MASKS, 3);
    Cfg c = a; c.ncore = 2; Cfg d = c; d.async = true;
    J("poll.smt", c, LEND|RECL|ACQ|BOR|RET, 4);
    J("poll.smt.lent", c, LEND|RECL|ACQ|BOR|RET, 4, {"P0.Lend", "P1.Borrow", "P0.ReclaimCpu(1)"});
    J("async.smt", d, LEND|RECL|ACQ|BOR, 3);
    J("async.smt.lent", d, LEND|RECL|ACQ|BOR, 3, {"P0.Lend", "P1.AcquireCpus(2)"});
    Cfg e = a; e.np = 3; e.ncpu = e.ncore = 3; e.mask[0] = 1; e.mask[1] = 2; e.mask[2] = 4; Cfg f = e; f.async = true;
    J("poll.3x1", e, LEND|RECL|ACQ|BOR|RET, 4);
    J("poll.3x1.masks", e, LEND|RECL|BOR|RET|MASKS, 4);
    J("async.3x1", f, LEND|RECL|ACQ|BOR, 4);
    J("async.3x1.queued", f, LEND|RECL|ACQ, 3, {"P1.AcquireCpu(0)", "P2.AcquireCpu(0)", "P2.AcquireCpus(2)"});
    for (const char *af : {"any", "nearby-first", "nearby-only", "spread-ifempty"}) {
        Cfg g = a; g.nnode = 2; g.mask[0] = 1; g.mask[1] = 4; g.aff = af; if (!strcmp(af, "spread-ifempty")) { g.mask[0] = 3; g.mask[1] = 12; } J((std::string("poll.aff.") + af).c_str(), g, LEND|ACQ|BOR|MISC, 3);
        g.norespect = true; J((std::string("poll.nr.") + af).c_str(), g, LEND|ACQ|BOR|RECL|RET|LIFE, 3);
        g.mask[0] = 9; g.mask[1] = 6; g.norespect = false; g.async = true; J((std::string("async.aff.") + af).c_str(), g, LEND|ACQ|BOR|RECL, 3);
    }
    Cfg h = a; h.postmortem = true; J("poll.pm", h, LEND|RECL|BOR|RET|LIFE, 4); h.async = true; J("async.pm", h, LEND|ACQ|RECL|LIFE, 4);
    Cfg k = a; k.maxpar = 3; J("poll.mp", k, LEND|ACQ|BOR|RECL|MISC, 4); k.async = true; J("async.mp", k, LEND|ACQ|BOR|RECL|MISC, 3);
    Cfg l = a; l.initall = false; l.mask[1] = 6; J("poll.overlap", l, LEND|BOR|LIFE, 4);
    Cfg m = a; m.drom = true; m.ncpu = m.ncore = 3; m.mask[1] = 4; J("drom.poll", m, LEND|RECL|BOR|RET|DROM, 3); J("drom.poll.lent", m, LEND|RECL|BOR|RET|DROM, 3, {"P0.Lend", "P1.Borrow"}); J("drom.poll.life", m, LEND|BOR|LIFE|DROM, 3); J("drom.poll.misc", m, LEND|BOR|MISC|DROM, 3);
    Cfg n = m; n.async = true; J("drom.async", n, LEND|RECL|ACQ|DROM, 3); J("drom.async.lent", n, LEND|RECL|ACQ|BOR|DROM, 3, {"P0.Lend", "P1.AcquireCpus(2)"}); J("drom.async.life", n, LEND|ACQ|LIFE|DROM, 3);
    Cfg o = m; o.np = 3; o.mask[0] = 1; o.mask[1] = 2; J("drom.poll.3p", o, LEND|BOR|RET|DROM, 3); o.async = true; J("drom.async.3p", o, LEND|ACQ|DROM, 3);
    J("poll.check", a, LEND|RECL|BOR|RET|CHECK, 4); J("async.check", b, LEND|RECL|ACQ|CHECK, 4); J("poll.check.smt", c, LEND|RECL|BOR|RET|CHECK, 4); J("poll.check.borrowed", a, LEND|RECL|RET|LIFE|CHECK, 4, {"P0.Lend", "P1.CheckCpuAvailability(0)"}); J("poll.check.pm", h, LEND|BOR|CHECK|LIFE, 3);
    J("poll.range", a, LEND|BOR|RECL|RET|RANGE, 3); J("poll.range.borrowed", a, RANGE|RECL|LEND|BOR, 2, {"P0.Lend", "P1.Borrow", "P0.ReclaimCpu(0)"}); J("async.range", b, LEND|ACQ|RANGE, 3); J("poll.range.3", e, LEND|BOR|RANGE, 3); J("poll.range.smt", c, LEND|BOR|RANGE, 3);
    J("mpi.poll", a, LEND|RECL|BOR|RET|MPI, 4); J("mpi.async", b, LEND|RECL|ACQ|MPI, 3); J("mpi.poll.borrowed", a, LEND|RECL|BOR|RET|MPI, 4, {"P0.Lend", "P1.Borrow"}); J("mpi.async.borrowed", b, LEND|RECL|ACQ|BOR|MPI, 3, {"P0.Lend", "P1.AcquireCpus(2)"});
    J("mpi.poll.misc", a, BOR|RET|MISC|MPI, 5); J("mpi.poll.life", a, LEND|BOR|RET|LIFE|MPI, 4); J("mpi.async.life", b, ACQ|LIFE|MPI, 4); Cfg q = a; q.keep = true; J("mpi.poll.keep", q, LEND|RECL|BOR|MPI, 4); q.async = true; J("mpi.async.keep", q, LEND|ACQ|MPI, 3); J("mpi.poll.3x1", e, LEND|BOR|RET|MPI, 4); J("mpi.async.3x1", f, ACQ|RECL|MPI, 3);
    J("mpi.poll.lost", a, LEND|RECL|BOR|ACQ|RET|MASKS|LIFE|MISC|MPI|CHECK, 3, {"P0.Lend", "P1.Borrow", "P1.into MPI{0}", "P0.Reclaim", "P1.out of MPI"}); J("mpi.poll.lost.drom", m, LEND|RECL|BOR|RET|DROM|MPI, 2, {"P0.Lend", "P1.Borrow", "P1.into MPI{0}", "P0.Reclaim", "P1.out of MPI"});
    J("mpi.poll.lost2", a, LEND|RECL|BOR|RET|MASKS|LIFE|MPI|CHECK, 3, {"P0.Lend", "P1.Borrow", "P1.into MPI{0,1}", "P0.Reclaim", "P1.out of MPI"}); J("mpi.poll.lost2.drom", m, LEND|RECL|BOR|RET|MASKS|DROM|MPI, 2, {"P0.Lend", "P1.Borrow", "P1.into MPI{0,1}", "P0.Reclaim", "P1.out of MPI"});
    J("mpi.poll.drom", m, BOR|RET|DROM|MPI, 4); J("mpi.async.drom", n, ACQ|DROM|MPI, 3); J("mpi.poll.smt", c, LEND|RECL|BOR|RET|MPI, 4); J("mpi.async.smt", d, LEND|ACQ|RECL|MPI, 3);
    J("poll.2x2.borrowed", a, LEND|RECL|ACQ|BOR|RET|MISC, 3, {"P0.Lend", "P1.Borrow"});
    J("async.2x2.borrowed", b, LEND|RECL|ACQ|BOR|MISC|LIFE, 3, {"P0.Lend", "P1.AcquireCpus(2)", "P0.AcquireCpus(1)"});
}
