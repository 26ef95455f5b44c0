/* Node barriers: every sequence of init, finalize, crash, register, attach, detach and barrier calls of 2-3 processes, on the
 * real code, where a barrier call really blocks its thread; compared with the sets of participants and waiting processes. */
#include "hn.h"
extern "C" { long shim_into(long), shim_out(long); }
using mc::fmt;
enum { MP = 3, NB = 4, DEF = 0 };
static const char *BN[NB] = {nullptr, "A", "AB", "a name of exactly thirty-two ch"};
struct Pr { int up, dead; unsigned in; dlb_barrier_t *h[NB]; int ever; int waiting, calls, done, ret; int lent; };
static struct User { Pr p[MP]; int taint; } U;
/* known finding: the barriers a dead process was not attached to lose a participant too; whatever goes wrong after that is attributed to it */
#define BAD(sig, ...) mc::bad(U.taint ? "crash-unattached" : sig, __VA_ARGS__)
static struct Cfg { int np, cpus; unsigned lewi; const char *args; int flags[NB]; } C;
/* participants of a barrier and those inside */
static unsigned part(int b) { unsigned m = 0; for (int i = 0; i < C.np; ++i) if ((U.p[i].up || U.p[i].dead) && U.p[i].in >> b & 1) m |= 1u << i; return m; }
static unsigned inside(int b) { unsigned m = 0; for (int i = 0; i < C.np; ++i) if (U.p[i].up && U.p[i].waiting == b + 1) m |= 1u << i; return m; }
static int nbar() { int n = 0; for (int b = 0; b < NB; ++b) n += part(b) != 0; return n; }
static std::string show() { std::string s; for (int i = 0; i < C.np; ++i) { s += fmt("P%d:%s ", i, U.p[i].up ? "" : U.p[i].dead ? "dead" : "-"); for (int b = 0; b < NB; ++b) if (U.p[i].in >> b & 1) s += fmt("%s%s ", b ? BN[b] : "default", U.p[i].waiting == b + 1 ? "(waiting)" : ""); } return s; }
static void rc(const char *op, long got, long w) { if (got != w) BAD("result", "%s returned %s, should be %s (%s)", op, got > 0 ? std::to_string(got).c_str() : errname(got), w > 0 ? std::to_string(w).c_str() : errname(w), show().c_str()); }
static void *waiter(void *a) { long v = (long)a; int i = v / 8, b = v % 8; Pr &p = U.p[i]; int r = b ? DLB_BarrierNamed(p.h[b]) : DLB_Barrier(); p.ret = r; p.done++; return nullptr; }
static void settle() { if (!mc::is_bad()) vn_run_helpers(-1); }
static void check_done() {
    for (int i = 0; i < C.np; ++i) { Pr &p = U.p[i]; if (p.done != p.calls - !!p.waiting) { BAD(p.waiting ? "early" : "stuck", p.waiting ? "P%d left the barrier before all arrived (%s)" : "P%d still waits and all have arrived (%s)", i, show().c_str()); return; } }
}
static void release(int b) { unsigned m = part(b); if (m && inside(b) == m) { for (int i = 0; i < C.np; ++i) if (m >> i & 1) U.p[i].waiting = 0; mc::outcome(__builtin_popcount(m) > 1 ? "barrier of several" : "barrier of one"); } }
static void cleaned() { bool any = false; for (auto &p : U.p) if (p.dead) { for (int b = 0; b < NB; ++b) if (part(b) && !(p.in >> b & 1)) U.taint = 1; memset(&p, 0, sizeof p); any = true; } if (any) mc::outcome("dead participant removed"); }
static void created(int b);
static void op_init(int i) {
    Pr &p = U.p[i]; if (p.ever && 0) return; cpu_set_t m = to_set(1UL << i); topo(i, C.cpus, C.cpus, 1);
    if (p.up == 0 && p.ever) {}
    std::string a = std::string("--quiet --barrier ") + (C.args ? C.args : "--lewi=no"); long e = IN(i, DLB_Init(0, &m, a.c_str())); if (mc::is_bad()) return; rc("DLB_Init", e, DLB_SUCCESS);
    cleaned(); memset(&p, 0, sizeof p); created(DEF); p.up = p.ever = 1; p.in = 1;
}
static void op_fini(int i) { long e = IN(i, DLB_Finalize()); if (mc::is_bad()) return; rc("DLB_Finalize", e, DLB_SUCCESS); memset(&U.p[i], 0, sizeof U.p[i]); }
static void op_crash(int i) { Pr &p = U.p[i]; vn_kill(i); p.up = 0; p.dead = 1; bool anyup = false; for (auto &q : U.p) anyup |= q.up; (void)anyup; }
/* the handles of barriers that do not exist any more cannot be used once other barrier may have taken their place */
static void created(int b) { if (part(b)) return; for (int k = 1; k < NB; ++k) if (!part(k)) for (auto &p : U.p) p.h[k] = nullptr; }
static void op_reg(int i, int b) {
    Pr &p = U.p[i]; bool room = part(b) || nbar() < C.cpus; bool found = p.in >> b & 1; dlb_barrier_t *h = (dlb_barrier_t*)IN(i, DLB_BarrierNamedRegister(BN[b], (dlb_barrier_flags_t)C.flags[b])); if (mc::is_bad()) return;
    if (!h != !room) { BAD("register", "BarrierNamedRegister %s (%s)", h ? "succeeds with no room" : "fails", show().c_str()); return; }
    if (!h) { mc::outcome("no room for a barrier"); return; }
    if (found && h != p.h[b]) { BAD("register", "registering again gives another barrier"); return; }
    for (int k = 0; k < NB; ++k) if (k != b && (p.in >> k & 1) && p.h[k] == h) { BAD("register", "two names give the same barrier"); return; }
    created(b); p.h[b] = h; p.in |= 1u << b;
}
static void op_detach(int i, int b) { Pr &p = U.p[i]; bool in = p.in >> b & 1; p.in &= ~(1u << b); long w = in ? __builtin_popcount(part(b)) : DLB_ERR_PERM; long e = b ? IN(i, DLB_BarrierNamedDetach(p.h[b])) : IN(i, DLB_BarrierDetach()); if (mc::is_bad()) return; rc(b ? "BarrierNamedDetach" : "BarrierDetach", e, w); }
static void op_attach(int i, int b) {
    Pr &p = U.p[i]; bool in = p.in >> b & 1; bool room = part(b) || (!b && nbar() < C.cpus); if (!in && room) { created(b); p.in |= 1u << b; } long w = in ? DLB_ERR_PERM : room ? __builtin_popcount(part(b)) : b ? DLB_ERR_PERM : DLB_ERR_NOMEM;
    long e = b ? IN(i, DLB_BarrierNamedAttach(p.h[b])) : IN(i, DLB_BarrierAttach()); if (mc::is_bad()) return; rc(b ? "BarrierNamedAttach" : "BarrierAttach", e, w);
}
static void op_barrier(int i, int b) {
    Pr &p = U.p[i]; bool in = p.in >> b & 1; if (!in) { long e = b ? IN(i, DLB_BarrierNamed(p.h[b])) : IN(i, DLB_Barrier()); if (mc::is_bad()) return; rc("Barrier", e, DLB_NOUPDT); mc::outcome("barrier when detached"); return; }
    p.calls++; p.waiting = b + 1; release(b); vn_thread_create_in(i, waiter, (void*)(long)(i * 8 + b)); settle(); if (mc::is_bad()) return;
    for (int k = 0; k < C.np; ++k) if (U.p[k].up && !U.p[k].waiting && U.p[k].calls && U.p[k].done == U.p[k].calls && U.p[k].ret) rc("Barrier", U.p[k].ret, DLB_SUCCESS);
    check_done(); if (mc::is_bad()) return;
    for (int k = 0; k < C.np; ++k) if (!U.p[k].waiting) U.p[k].calls = U.p[k].done = 0;
}
/* a process blocked in a barrier that does LeWI lends its CPU; nobody else does */
static void invariant() {
    check_done(); if (mc::is_bad()) return;
    if (C.args) for (int i = 0; i < C.np; ++i) if (U.p[i].up) { bool w = U.p[i].waiting && (C.lewi >> (U.p[i].waiting - 1) & 1);
        for (int k = 0; k < C.np; ++k) if (k != i && U.p[k].up && !U.p[k].waiting) { long e = IN(k, DLB_BorrowCpu(i)); if (mc::is_bad()) return; rc("BorrowCpu of the other", e, w ? DLB_SUCCESS : DLB_NOUPDT); if (!e) { mc::outcome("CPU lent in the barrier"); e = IN(k, DLB_ReturnCpu(i)); if (e == DLB_NOUPDT) e = IN(k, DLB_LendCpu(i)); if (mc::is_bad()) return; rc("give it back", e, DLB_SUCCESS); } break; } }
    bool any = false; for (auto &p : U.p) any |= p.up || p.dead; if (!any && vn_shm_count()) BAD("leftover", "%d shared memories left", vn_shm_count());
}
static std::vector<mc::Op> ops;
static void add(const std::string &n, std::function<bool()> en, std::function<void()> run) { /* only one operation more after that */ ops.push_back({n, [=]() { return U.taint < 2 && en(); }, [=]() { if (U.taint) U.taint = 2; run(); }}); }
static bool quiet(unsigned bs) { for (int b = 0; b < NB; ++b) if (bs >> b & 1 && inside(b)) return false; return true; }
static bool stuck(unsigned bs) { (void)bs; return false; }
static bool room() { int n = 0; for (auto &p : U.p) n += p.up; return n < C.cpus; }
static void life(std::vector<int> ps) { for (int i : ps) { add(fmt("P%d.Init", i), [=]() { return !U.p[i].up && !U.p[i].dead && G.proc[i].alive && quiet(1) && room() && (part(DEF) || nbar() < C.cpus); }, [=]() { op_init(i); }); add(fmt("P%d.Finalize", i), [=]() { return U.p[i].up && !U.p[i].waiting && quiet(U.p[i].in); }, [=]() { op_fini(i); }); } }
static void crash(int i) { add(fmt("P%d.crash", i), [=]() { return U.p[i].up && !U.p[i].waiting; }, [=]() { op_crash(i); }); }
static void named(int i, std::vector<int> bs, bool det = true) { for (int b : bs) {
    if (b) add(fmt("P%d.register(%s)", i, BN[b]), [=]() { return U.p[i].up && !U.p[i].waiting && (quiet(1u << b) || (U.p[i].in >> b & 1)); }, [=]() { op_reg(i, b); });
    add(fmt("P%d.barrier(%s)", i, b ? BN[b] : "default"), [=]() { return U.p[i].up && !U.p[i].waiting && (!b || U.p[i].h[b]); }, [=]() { op_barrier(i, b); });
    if (det) add(fmt("P%d.detach(%s)", i, b ? BN[b] : "default"), [=]() { return U.p[i].up && !U.p[i].waiting && (!b || U.p[i].h[b]) && quiet(1u << b); }, [=]() { op_detach(i, b); });
    if (det) add(fmt("P%d.attach(%s)", i, b ? BN[b] : "default"), [=]() { return U.p[i].up && !U.p[i].waiting && (!b || U.p[i].h[b]) && quiet(1u << b) && (!b || U.p[i].in >> b & 1 || part(b) || true); }, [=]() { op_attach(i, b); });
} }
static void J(const std::string &name, Cfg c, std::function<void()> f, int depth, std::vector<std::string> pre = {}) {
    mc::job(name, [=]() {
        C = c; ops.clear(); for (int i = 0; i < C.np; ++i) { life({i}); named(i, {DEF, 1, 2}); } memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; vn_tick = 0; vn_reset(); vn_sysconf_cpus = C.cpus; for (int p = 0; p < C.np; ++p) vn_spawn(1003 - p);
        for (auto &p : pre) { bool f = false; for (auto &o : ops) if (o.name == p) { if (!o.enabled()) BAD("prefix", "%s not enabled", p.c_str()); o.run(); f = true; } if (!f) BAD("prefix", "no op %s", p.c_str()); invariant(); if (mc::is_bad()) return; }
        ops.clear(); f(); mc::Limits l; l.depth = depth + 2 + mc::level; l.max_states = 3000000; mc::explore_ops(ops, invariant, l);
    }, depth);
}
void mc_register() {
    Cfg c2{2, 3, 0, nullptr, {}}, c3{3, 3, 0, nullptr, {}}, s2{2, 2, 0, nullptr, {}};
    J("2p", c2, []() { life({0, 1}); named(0, {DEF, 1}); named(1, {DEF, 1}); }, 6);
    J("2p.named", s2, []() { life({1}); named(0, {1, 2, 3}); named(1, {1, 2}); }, 5, {"P0.Init", "P1.Init"});
    J("3p", c3, []() { life({2}); named(0, {DEF, 1}); named(1, {DEF, 1}); named(2, {DEF, 1}); }, 4, {"P0.Init", "P1.Init", "P0.register(A)"});
    /* barriers 0 (default), 1 (A), 2 (AB): which ones lend the CPU is chosen by the options and the flags of the first that registers */
    auto lw = [&](const char *n, Cfg c, int d) { J(n, c, []() { life({1}); named(0, {DEF, 1, 2}, false); named(1, {DEF, 1, 2}); }, d, {"P0.Init", "P1.Init"}); };
    Cfg l{2, 4, 1, "--lewi", {0, 0, DLB_BARRIER_LEWI_OFF}}; l.flags[1] = DLB_BARRIER_LEWI_RUNTIME; lw("lewi.default", l, 4);
    l.args = "--lewi --lewi-barrier=no"; l.lewi = 2; l.flags[1] = DLB_BARRIER_LEWI_ON; l.flags[2] = DLB_BARRIER_LEWI_RUNTIME; lw("lewi.on", l, 4);
    l.args = "--lewi --lewi-barrier-select=default,AB"; l.lewi = 5; l.flags[1] = l.flags[2] = DLB_BARRIER_LEWI_RUNTIME; lw("lewi.select", l, 4);
    l.args = "--lewi --lewi-barrier-select=AB"; l.lewi = 6; l.flags[1] = DLB_BARRIER_LEWI_ON; lw("lewi.select2", l, 4);
    Cfg l3{3, 4, 3, "--lewi", {0, DLB_BARRIER_LEWI_ON, 0}}; J("lewi.3p", l3, []() { life({2}); named(0, {DEF, 1}); named(1, {DEF, 1}, false); named(2, {DEF}); }, 5, {"P0.Init", "P1.Init"});
    J("2p.crash", c2, []() { life({0, 1}); crash(1); named(0, {DEF, 1}); named(1, {1}); }, 6);
    J("3p.crash", c3, []() { life({1, 2}); crash(1); named(0, {DEF, 1}); named(1, {1}, false); named(2, {DEF, 1}, false); }, 6, {"P0.Init", "P1.Init"});
}
