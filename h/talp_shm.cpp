/* TALP data shared in the node: every sequence of region operations of 2 processes, finalizations, crashes and external
 * observers, on the real code; after each one every process with access asks for everything there is about every region
 * and process, and gets what the (independent) accounting of each process had at its last update. */
#include "hn.h"
#include <math.h>
extern "C" { long shim_into(long), shim_out(long), shim_mpi_init(void), shim_mpi_fini(void); }
using mc::bad; using mc::fmt;
enum { NP = 2, O = 2, NR = 3, GL = 0, MANY = 60 };
static const char *RN[NR] = {"Global", "A", "AB"}; static const int PID[3] = {1005, 1002, 1009};
enum St { DIS, USE, MPI };
struct Reg { int reg, open, shm; int64_t us, mp, sus, smp, mus, mmp; dlb_monitor_t *h; };
struct Pr { int up, dead, gone, st, fin, many, nmany, att; Reg r[NR]; };
static struct User { Pr p[NP]; int oatt, shm; } U;
static struct Cfg { int ext, min, cpus; } C;
static int cap() { return C.cpus * (C.ext ? 100 : 2); }
static int used() { int n = 0; for (auto &p : U.p) if (p.up || p.dead) { for (auto &r : p.r) n += r.shm; n += p.nmany; } return n; }
static std::string show() { std::string s; for (int i = 0; i < NP; ++i) { s += fmt("P%d:%s", i, U.p[i].up ? "up" : U.p[i].dead ? "dead" : "-"); for (int r = 0; r < NR; ++r) if (U.p[i].r[r].reg) s += fmt(" %s%s%s", RN[r], U.p[i].r[r].open ? "*" : "", U.p[i].r[r].shm ? "" : "(unshared)"); s += " "; } s += U.oatt ? "O:attached" : ""; return s; }
static void rc(const char *op, long got, long w) { if (got != w) bad("result", "%s returned %s, should be %s (%s)", op, errname(got), errname(w), show().c_str()); }
static void pass(int64_t dt) { G.now += dt; for (auto &p : U.p) if (p.up) for (auto &r : p.r) if (r.open) { if (p.st == USE) r.us += dt; if (p.st == MPI) r.mp += dt; } }
static void flush(Pr &p) { for (auto &r : p.r) if (r.open) { r.mus = r.us; r.mmp = r.mp; if (C.ext) { r.sus = r.us; r.smp = r.mp; } } }
/* the list of attached processes has one slot per CPU */
static bool room() { int n = U.oatt; for (auto &p : U.p) n += p.up; return n < C.cpus; }
static bool open_by_somebody() { if (U.oatt) return true; for (auto &p : U.p) if (p.up) return true; return false; }
/* somebody opens the shared memory: what dead processes left is removed */
static void opened() { bool any = false; for (auto &p : U.p) if (p.dead) { p.dead = 0; p.gone = 1; any = true; mc::outcome("dead process removed"); } if (any && !used()) U.shm = 0; }
static void closed() { if (!open_by_somebody()) { bool dead = false; for (auto &p : U.p) dead |= p.dead; if (!dead) U.shm = 0; } }
/* what viewer v knows of region name */
static void view(int v) {
    bool has = v == O ? U.oatt : (U.p[v].up && (C.ext || C.min)) ; if (v < NP && U.p[v].att) has = true;
    const char *names[] = {nullptr, "Global", "A", "AB", "ABC", "R7", "R39", "R60", "R179"};
    for (int k = 0; k < 9; ++k) {
        const char *nm = names[k]; int r = k < 2 ? GL : k == 2 ? 1 : k == 3 ? 2 : -1; int idx = k > 4 ? atoi(nm + 1) : -1;
        dlb_node_times_t want[NP]; int n = 0, np = 0; int64_t tu = 0, tm = 0, xu = 0, xm = 0;
        for (int i : {1, 0}) { Pr &p = U.p[i]; if (!(p.up || p.dead)) continue; int64_t us = 0, mp = 0;
            if (r >= 0) { if (!p.r[r].shm) continue; us = p.r[r].sus; mp = p.r[r].smp; } else if (idx < 0 || idx >= p.nmany) continue;
            want[n].pid = PID[i]; want[n].useful_time = us; want[n].mpi_time = mp; ++n;
            if (us > 0 || mp > 0) { ++np; tu += us; tm += mp; if (us > xu) xu = us; if (mp > xm) xm = mp; } }
        dlb_node_times_t got[4]; int gn = -1; long e = IN(v, DLB_TALP_GetNodeTimes(nm, got, &gn, 4)); if (mc::is_bad()) return;
        long we = has && U.shm ? DLB_SUCCESS : DLB_ERR_NOSHMEM; rc("TALP_GetNodeTimes", e, we);
        if (e == DLB_SUCCESS) {
            if (gn != n) { bad("nodetimes", "GetNodeTimes(%s) finds %d processes, there are %d (%s)", nm ? nm : "NULL", gn, n, show().c_str()); return; }
            for (int i = 0; i < n; ++i) if (got[i].pid != want[i].pid || got[i].useful_time != want[i].useful_time || got[i].mpi_time != want[i].mpi_time) { bad("nodetimes", "GetNodeTimes(%s)[%d]: pid %d useful %ld mpi %ld, should be pid %d useful %ld mpi %ld (%s)", nm ? nm : "NULL", i, got[i].pid, (long)got[i].useful_time, (long)got[i].mpi_time, want[i].pid, (long)want[i].useful_time, (long)want[i].mpi_time, show().c_str()); return; }
            if (n > 1) { e = IN(v, DLB_TALP_GetNodeTimes(nm, got, &gn, 1)); if (e || gn != 1) bad("nodetimes", "GetNodeTimes with room for 1 gives %d", gn); mc::outcome("two processes with the region"); }
        }
        dlb_node_metrics_t m; memset(&m, 0x11, sizeof m); e = IN(v, DLB_TALP_QueryPOPNodeMetrics(nm, &m)); if (mc::is_bad()) return;
        rc("TALP_QueryPOPNodeMetrics", e, we ? we : np ? DLB_SUCCESS : DLB_ERR_NOENT);
        if (e == DLB_SUCCESS) {
            if (m.processes_per_node != np || m.total_useful_time != tu || m.total_mpi_time != tm || m.max_useful_time != xu || m.max_mpi_time != xm || strcmp(m.name, nm ? nm : "Global")) { bad("metrics", "QueryPOPNodeMetrics(%s): '%s' %d processes, useful %ld (max %ld) mpi %ld (max %ld), should be %d: %ld (%ld) %ld (%ld)", nm ? nm : "NULL", m.name, m.processes_per_node, (long)m.total_useful_time, (long)m.max_useful_time, (long)m.total_mpi_time, (long)m.max_mpi_time, np, (long)tu, (long)xu, (long)tm, (long)xm); return; }
            double pe = tu ? (double)tu / (tu + tm) : 0, lb = tu ? (double)tu / np / xu : 0, ce = tu ? pe / lb : 0;
            double tol = 1e-5 + (xu ? 2.0 / xu : 0); if (fabs(m.parallel_efficiency - pe) > tol || fabs(m.load_balance - lb) > tol || fabs(m.communication_efficiency - ce) > tol) bad("metrics", "efficiencies %f = %f * %f, should be %f = %f * %f", m.parallel_efficiency, m.communication_efficiency, m.load_balance, pe, ce, lb);
        }
    }
    for (int i = 0; i < 3; ++i) { Pr *p = i < NP ? &U.p[i] : nullptr; int pid = p ? PID[i] : 4242; double a = -1, b = -1; long e = IN(v, DLB_TALP_GetTimes(pid, &a, &b)); if (mc::is_bad()) return;
        bool own = p && i == v && p->up; long w = own ? DLB_SUCCESS : !has ? DLB_ERR_NOSHMEM : p && (p->up || p->dead) && p->r[GL].shm ? DLB_SUCCESS : DLB_ERR_NOPROC; rc("TALP_GetTimes", e, w);
        if (e == DLB_SUCCESS) { Reg &r = p->r[GL]; int64_t us = own ? r.mus : r.sus, mp = own ? r.mmp : r.smp; if (llround(a * 1e9) != mp || llround(b * 1e9) != us) bad("times", "GetTimes(P%d) gives mpi %.9f useful %.9f, should be %ld ns %ld ns (%s)", i, a, b, (long)mp, (long)us, show().c_str()); } }
    int pids[8], np = -1; long e = IN(v, DLB_TALP_GetPidList(pids, &np, 8)); if (mc::is_bad()) return; bool pi = v == O ? U.oatt : true; rc("TALP_GetPidList", e, pi ? DLB_SUCCESS : DLB_ERR_NOSHMEM);
    if (!e) { int n = 0; for (int i = 0; i < NP; ++i) { bool in = false; for (int k = 0; k < np; ++k) in |= pids[k] == PID[i]; bool is = U.p[i].up || U.p[i].dead; n += is; if (in != is) bad("pidlist", "GetPidList %s P%d (%s)", in ? "has" : "misses", i, show().c_str()); } if (np != n) bad("pidlist", "GetPidList has %d processes, there are %d", np, n); }
    int nc = 0; e = IN(v, DLB_TALP_GetNumCPUs(&nc)); if (mc::is_bad()) return; if (pi && (e || nc != C.cpus)) bad("numcpus", "GetNumCPUs gives %d", nc);
}
static void invariant() {
    for (int v = 0; v < 3; ++v) { if (v < NP && !U.p[v].up) continue; view(v); if (mc::is_bad()) return; }
    if (!open_by_somebody()) { int d = 0, g = 0; for (auto &p : U.p) d |= p.dead, g |= p.gone; if (!d && (g ? vn_shm_find("/DLB_talp_0") >= 0 : vn_shm_count())) bad("leftover", "%d shared memories left", vn_shm_count()); }
}
/* ---- operations */
static void share(Pr &p, int r) { bool s = C.ext || (C.min && r == GL); p.r[r].shm = s && used() < cap(); p.r[r].sus = p.r[r].smp = 0; if (!p.r[r].shm && s) mc::outcome("table full"); }
static void op_init(int i) {
    Pr &p = U.p[i]; bool first = !p.up; (void)first; std::string a = std::string("--quiet --lewi=no --talp --talp-summary=") + (C.min ? "node" : "none"); if (C.ext) a += " --talp-external-profiler";
    cpu_set_t m = to_set(C.cpus > 1 ? 1UL << i : 1); topo(i, C.cpus, C.cpus, 1); long e = IN(i, DLB_Init(0, &m, a.c_str())); if (mc::is_bad()) return; rc("DLB_Init", e, DLB_SUCCESS); if (e) return;
    opened(); if (C.ext || C.min) U.shm = 1;
    memset(&p, 0, sizeof p); p.r[GL].reg = 1; share(p, GL); p.up = 1;
    IN(i, shim_mpi_init()); if (mc::is_bad()) return; p.st = USE; p.r[GL].open = 1; p.r[GL].h = (dlb_monitor_t*)IN(i, DLB_MonitoringRegionGetGlobal()); mc::outcome("init");
}
static void op_fini(int i) { Pr &p = U.p[i]; if (p.att) { IN(i, DLB_TALP_Detach()); p.att = 0; } long e = IN(i, DLB_Finalize()); if (mc::is_bad()) return; rc("DLB_Finalize", e, DLB_SUCCESS); memset(&p, 0, sizeof p); closed(); mc::outcome("finalize"); }
static void op_mpifini(int i) { Pr &p = U.p[i]; IN(i, shim_mpi_fini()); if (mc::is_bad()) return; flush(p); p.r[GL].open = 0; p.r[GL].sus = p.r[GL].mus; p.r[GL].smp = p.r[GL].mmp; p.fin = 1; }
static void op_crash(int i) { vn_kill(i); U.p[i].up = 0; U.p[i].dead = 1; for (auto &r : U.p[i].r) r.open = 0; if (!(C.ext || C.min)) U.p[i].dead = 0, U.p[i].gone = 1; }
static void op_start(int i, int r) {
    Pr &p = U.p[i]; Reg &R = p.r[r]; if (!R.reg) { R.h = (dlb_monitor_t*)IN(i, DLB_MonitoringRegionRegister(RN[r])); if (mc::is_bad()) return; R.reg = 1; share(p, r); }
    long e = IN(i, DLB_MonitoringRegionStart(R.h)); if (mc::is_bad()) return; rc("Start", e, DLB_SUCCESS); flush(p); R.open = 1; p.st = USE;
}
static void op_stop(int i, int r) { Pr &p = U.p[i]; long e = IN(i, DLB_MonitoringRegionStop(p.r[r].h)); if (mc::is_bad()) return; rc("Stop", e, DLB_SUCCESS); flush(p); p.r[r].open = 0; }
static void op_update(int i) { long e = IN(i, DLB_MonitoringRegionsUpdate()); if (mc::is_bad()) return; rc("Update", e, DLB_SUCCESS); flush(U.p[i]); }
static void op_into(int i) { IN(i, shim_into(0)); if (C.ext) flush(U.p[i]); U.p[i].st = MPI; }
static void op_out(int i) { IN(i, shim_out(0)); if (C.ext) flush(U.p[i]); U.p[i].st = USE; }
static void op_many(int i) { Pr &p = U.p[i]; for (int k = 0; k < MANY; ++k) { char nm[16]; snprintf(nm, 16, "R%d", p.many); if (!IN(i, DLB_MonitoringRegionRegister(nm))) bad("register", "cannot register"); if (mc::is_bad()) return; p.many++; if (used() < cap()) p.nmany++; else mc::outcome("table full"); } }
static void op_attach() { topo(O, C.cpus, C.cpus, 1); long e = IN(O, DLB_TALP_Attach()); if (mc::is_bad()) return; rc("TALP_Attach", e, DLB_SUCCESS); U.oatt = 1; opened(); mc::outcome("attach"); }
static void op_detach() { long e = IN(O, DLB_TALP_Detach()); if (mc::is_bad()) return; rc("TALP_Detach", e, DLB_SUCCESS); U.oatt = 0; closed(); }
static void op_print() { topo(O, C.cpus, C.cpus, 1); IN(O, DLB_PrintShmem(0, DLB_COLOR_AUTO)); if (mc::is_bad()) return; if (!U.oatt) { opened(); closed(); } mc::outcome("dlb_shm -l"); }
static void op_selfattach(int i) { long e = IN(i, DLB_TALP_Attach()); if (mc::is_bad()) return; rc("TALP_Attach", e, DLB_SUCCESS); U.p[i].att = 1; if (!(C.ext || C.min)) opened(); }
static void op_selfdetach(int i) { long e = IN(i, DLB_TALP_Detach()); if (mc::is_bad()) return; rc("TALP_Detach", e, DLB_SUCCESS); U.p[i].att = 0; }
static std::vector<mc::Op> ops; static int ndt;
static void add(const std::string &n, std::function<bool()> en, std::function<void()> run) { static const int64_t P[] = {1009, 2003, 3001, 4001, 5003, 6007, 7001, 8009, 9001, 10007, 11003, 12007, 13001, 14009, 15013, 16001, 17011, 18013, 19001, 20011}; int64_t dt = P[ndt++ % 20]; ops.push_back({n, en, [=]() { pass(dt); run(); }}); }
static void life(std::vector<int> ps) { for (int i : ps) { add(fmt("P%d.Init", i), [=]() { return !U.p[i].up && !U.p[i].dead && !U.p[i].gone && room(); }, [=]() { op_init(i); }); add(fmt("P%d.Finalize", i), [=]() { return U.p[i].up && U.p[i].st != MPI; }, [=]() { op_fini(i); }); } }
static void crash(int i) { add(fmt("P%d.crash", i), [=]() { return U.p[i].up; }, [=]() { op_crash(i); }); }
static void regs(int i, std::vector<int> rs) { for (int r : rs) { add(fmt("P%d.start(%s)", i, RN[r]), [=]() { Pr &p = U.p[i]; return p.up && !p.fin && p.st == USE && !p.r[r].open; }, [=]() { op_start(i, r); }); add(fmt("P%d.stop(%s)", i, RN[r]), [=]() { Pr &p = U.p[i]; return p.up && !p.fin && p.st == USE && p.r[r].open; }, [=]() { op_stop(i, r); }); } }
static void mpi(int i) { add(fmt("P%d.into MPI", i), [=]() { return U.p[i].up && !U.p[i].fin && U.p[i].st == USE; }, [=]() { op_into(i); }); add(fmt("P%d.out MPI", i), [=]() { return U.p[i].up && U.p[i].st == MPI; }, [=]() { op_out(i); }); }
static void upd(int i) { add(fmt("P%d.update", i), [=]() { return U.p[i].up && !U.p[i].fin && U.p[i].st == USE; }, [=]() { op_update(i); }); }
static void many(int i) { add(fmt("P%d.register %d", i, MANY), [=]() { return U.p[i].up && U.p[i].many < 3 * MANY; }, [=]() { op_many(i); }); }
static void mfini(int i) { add(fmt("P%d.MPI_Finalize", i), [=]() { return U.p[i].up && !U.p[i].fin && U.p[i].st == USE; }, [=]() { op_mpifini(i); }); }
static void observer() { add("O.attach", []() { return !U.oatt && room(); }, op_attach); add("O.detach", []() { return U.oatt; }, op_detach); }
static void print() { add("O.print", []() { return room(); }, op_print); }
static void self(int i) { add(fmt("P%d.attach", i), [=]() { return U.p[i].up && !U.p[i].att; }, [=]() { op_selfattach(i); }); add(fmt("P%d.detach", i), [=]() { return U.p[i].up && U.p[i].att; }, [=]() { op_selfdetach(i); }); }
static void J(const std::string &name, Cfg c, std::function<void()> f, int depth, std::vector<std::string> pre = {}) {
    mc::job(name, [=]() {
        C = c; ops.clear(); ndt = 0; f(); memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; vn_keep_durations = 1; vn_tick = 0; vn_reset(); vn_sysconf_cpus = C.cpus; for (int p : PID) vn_spawn(p);
        for (auto &p : pre) { bool f = false; for (auto &o : ops) if (o.name == p) { if (!o.enabled()) bad("prefix", "%s not enabled", p.c_str()); o.run(); f = true; } if (!f) bad("prefix", "no op %s", p.c_str()); invariant(); if (mc::is_bad()) return; }
        mc::Limits l; l.depth = depth + mc::level; l.max_states = 3000000; mc::explore_ops(ops, invariant, l);
    }, depth);
}
void mc_register() {
    Cfg e{1, 0, 4}, m{0, 1, 2}, f{1, 0, 3}, n{0, 0, 4};
    J("ext.life", e, []() { life({0, 1}); crash(1); observer(); print(); regs(0, {1}); }, 7);
    J("ext.regions", e, []() { life({1}); regs(0, {GL, 1, 2}); regs(1, {1}); observer(); print(); }, 7, {"P1.Init"});
    J("ext.mpi", e, []() { life({0, 1}); mpi(0); mpi(1); regs(0, {1}); upd(1); print(); }, 6, {"P0.Init", "P1.Init"});
    J("ext.self", e, []() { life({0, 1}); self(0); crash(1); upd(1); observer(); print(); }, 7);
    J("ext.full", f, []() { life({0, 1}); many(0); many(1); observer(); regs(1, {1}); print(); }, 6, {"O.attach"});
    J("min", m, []() { life({0, 1}); mfini(0); mfini(1); crash(1); observer(); print(); }, 8);
    J("none", n, []() { life({0, 1}); self(0); observer(); print(); upd(0); }, 7);
}
