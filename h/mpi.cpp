/* TALP of an MPI application: the report and the collective queries are the exact aggregate of all processes.
 * The ranks are virtual processes placed on simulated nodes (each one with its own shared memories) on top of a simulated MPI
 * library; DLB and its MPI interception layer are the real ones. Every placement, script, execution order and reduction order is
 * executed, and the report written by rank 0 is compared with a ledger of what each rank did. */
#include <algorithm>
#include "fakempi.h"
#include "records.h"
extern "C" {
int MPI_Init(int *, char ***); int MPI_Init_thread(int *, char ***, int, int *); int MPI_Finalize(void); int MPI_Barrier(void *); int MPI_Recv(void *, int, void *, int, int, void *, void *); int MPI_Isend(const void *, int, void *, int, int, void *, void *);
long vf_pmpi(const char *name, int, long *) { if (fm::in_call) fm::in_call(name); return 0; }
}
enum { NR = 4, NREG = 3 };      /* ranks; regions: Global, A, B */
static const char *RN[NREG] = {"Global", "A", "B"}; static string longname[2];
struct Led { bool reg, open; int64_t start, useful, mpi, elapsed, calls, par, tasks, lb, sched, serial, cyc, ins; int meas, resets, ncpus; float avg; int64_t wait; };     /* wait: time inside a query of DLB */
struct Inject { int ncpus; int64_t useful, mpi, elapsed, meas, calls, par, tasks, lb, sched, serial, cyc, ins; };
struct Case {
    int n; int node[NR]; int sum; int model; int fold; int order[NR]; int init, fin; const char *script[NR]; const Inject *inj[NR]; const char *extra;
};
enum { POP = 1, PROC = 2, NODE = 4 };
enum { I_DLB, I_MPI, I_THREAD }; enum { F_MPI, F_DLB };
static Case C; static Led L[NR][NREG]; static int state[NR] /* 0 off, 1 useful, 2 MPI, 3 in a query */; static bool sel[NREG] = {true, true, true}; /* regions not disabled by --talp-region-select */ static bool over[NR]; static Led snap[64][NR]; static int snapreg[64]; static std::map<string, string> out; static int writer; static int nwrites;
static void adv(int64_t d) { G.now += d; for (int r = 0; r < C.n; ++r) for (auto &l : L[r]) if (l.open) (state[r] == 2 ? l.mpi : state[r] == 3 ? l.wait : l.useful) += d; }
static void incall(const char *n) { if (!strcmp(n, "MPI_Init") || !strcmp(n, "MPI_Init_thread") || !strcmp(n, "MPI_Finalize")) return; adv(3); }
static void l_sample(int r) { for (auto &l : L[r]) if (l.open) l.ncpus = std::max(l.ncpus, 1); }    /* the open regions know their CPUs */
static void l_open(int r, int g) { Led &l = L[r][g]; l.reg = true; if (l.open || !sel[g]) return; l_sample(r); l.open = true; l.start = G.now; }
static void l_close(int r, int g) { Led &l = L[r][g]; if (!l.open) return; l_sample(r); l.open = false; l.elapsed += G.now - l.start; l.meas++; }
static int ncpu(int r) { return 1 + r % 2; }
static bool okrc(int rc, const char *what) { if (rc == DLB_SUCCESS) return true; bad("api", "rank %d: %s returns %s", G.cur_proc, what, errname(rc)); return false; }
/* ---- the aggregate */
static void aggregate(int g, const Led *v, dlb_pop_metrics_t &m, double got_of_max, bool collect) {
    memset(&m, 0, sizeof m); snprintf(m.name, sizeof m.name, "%s", RN[g]); double mx = 0; bool used[NR] = {}; double nu[NR] = {}; long nc[NR] = {};
    for (int r = 0; r < C.n; ++r) { auto &l = v[r]; m.num_cpus += l.ncpus; m.avg_cpus += l.avg; m.cycles += l.cyc; m.instructions += l.ins; m.num_measurements += l.meas; m.num_mpi_calls += l.calls; m.num_omp_parallels += l.par; m.num_omp_tasks += l.tasks; m.elapsed_time = std::max(m.elapsed_time, l.elapsed); m.useful_time += l.useful; m.mpi_time += l.mpi; m.omp_load_imbalance_time += l.lb; m.omp_scheduling_time += l.sched; m.omp_serialization_time += l.serial;
        if (l.meas) { used[C.node[r]] = true; nu[C.node[r]] += l.useful; nc[C.node[r]] += l.ncpus; } if (l.ncpus) mx = std::max(mx, (double)l.useful / l.ncpus); }
    m.num_mpi_ranks = C.n; double mxn = 0; for (int i = 0; i < NR; ++i) { m.num_nodes += used[i]; if (nc[i]) mxn = std::max(mxn, nu[i] / nc[i]); }
    if (!collect && m.elapsed_time == 0) { char nm[sizeof m.name]; memcpy(nm, m.name, sizeof nm); memset(&m, 0, sizeof m); memcpy(m.name, nm, sizeof nm); return; }
    m.useful_normd_app = m.num_cpus ? (double)m.useful_time / m.num_cpus : 0; m.mpi_normd_app = m.num_cpus ? (double)m.mpi_time / m.num_cpus : 0; m.max_useful_normd_proc = mx; m.max_useful_normd_node = mxn;
    /* of any of the processes with the maximum */
    bool any = false; for (int r = 0; r < C.n; ++r) if (v[r].ncpus && (double)v[r].useful / v[r].ncpus == mx) { double x = (double)v[r].mpi / v[r].ncpus; if (!any || fabs(x - got_of_max) < fabs(m.mpi_normd_of_max_useful - got_of_max)) m.mpi_normd_of_max_useful = x; any = true; }
    if (mx == 0 && fabs(got_of_max) < fabs(m.mpi_normd_of_max_useful - got_of_max)) m.mpi_normd_of_max_useful = 0;
    if (m.useful_time <= 0) return;
    double U = m.useful_time, P = m.mpi_time, b = m.omp_load_imbalance_time, s = m.omp_scheduling_time, e = m.omp_serialization_time;
    m.parallel_efficiency = U / (U + P + b + s + e);
    m.omp_serialization_efficiency = (U + P) / (U + P + e); m.omp_load_balance = (U + P + e) / (U + P + e + b); m.omp_scheduling_efficiency = (U + P + e + b) / (U + P + e + b + s); m.omp_parallel_efficiency = (U + P) / (U + P + b + s + e);
    m.mpi_load_balance_in = mxn / mx; m.mpi_load_balance_out = m.useful_normd_app / mxn; m.mpi_load_balance = m.useful_normd_app / mx;
    m.mpi_communication_efficiency = C.model == 1 ? mx / (m.useful_normd_app + m.mpi_normd_app) : mx / (mx + m.mpi_normd_of_max_useful);
    m.mpi_parallel_efficiency = C.model == 1 ? U / (U + P) : m.useful_normd_app / (mx + m.mpi_normd_of_max_useful);
}
static bool close_enough(const Field &f, const void *x, const void *y) { const char *a = (const char *)x + f.off, *b = (const char *)y + f.off; switch (f.kind) { case 0: return *(int *)a == *(int *)b; case 1: return *(int64_t *)a == *(int64_t *)b; case 3: { double u = *(double *)a, v = *(double *)b; return fabs(u - v) <= fabs(v) * 1e-12; } default: { float u = *(float *)a, v = *(float *)b; return fabs(u - v) <= fabs(v) * 1e-5; } } }
static string fval(const Field &f, const void *x) { const char *a = (const char *)x + f.off; switch (f.kind) { case 0: return num(*(int *)a); case 1: return num(*(int64_t *)a); case 3: return fmt("%.9g", *(double *)a); default: return fmt("%.9g", *(float *)a); } }
/* ---- a rank */
static int nsnap[NR];
/* waiting for the other processes inside a query of DLB is useful time or MPI time, and MPI calls or not, depending on the barrier */
static void resolve(int r) {
    DLB_MonitoringRegionsUpdate(); l_sample(r);
    for (int g = 0; g < NREG; ++g) { Led &l = L[r][g]; if (!l.open) continue; dlb_monitor_t *m = DLB_MonitoringRegionRegister(RN[g]); int64_t u = m->useful_time - l.useful, p = m->mpi_time - l.mpi, c = m->num_mpi_calls - l.calls; if (u < 0 || p < 0 || u + p != l.wait || c < 0 || c > 2) { bad("ledger", "rank %d, region %s: useful %ld, MPI %ld, %ld calls; should be %ld, %ld, %ld plus %ld of waiting", r, RN[g], (long)m->useful_time, (long)m->mpi_time, (long)m->num_mpi_calls, (long)l.useful, (long)l.mpi, (long)l.calls, (long)l.wait); return; } l.useful += u; l.mpi += p; l.calls += c; l.wait = 0; }
}
static void l_reg(int r, int g) { if (!L[r][g].reg) { L[r][g].reg = true; L[r][g].avg = ncpu(r); } }
static void collect(int r, int g, bool node) {
    dlb_monitor_t *m = DLB_MonitoringRegionRegister(RN[g]); if (!m) { bad("api", "rank %d: region %s cannot be registered", r, RN[g]); return; } bool was = L[r][g].open; l_reg(r, g); l_close(r, g); int k = nsnap[r]++; snap[k][r] = L[r][g]; snapreg[k] = g;
    if (!node) {
        dlb_pop_metrics_t x, w; memset(&x, 0x5a, sizeof x); int rc = DLB_TALP_CollectPOPMetrics(g == 0 ? DLB_GLOBAL_REGION : m, &x); if (was) l_open(r, g); if (!okrc(rc, "CollectPOPMetrics")) return;
        aggregate(g, snap[k], w, x.mpi_normd_of_max_useful, true); if (strcmp(x.name, RN[g])) bad("collect", "rank %d gets the metrics of region %s instead of %s", r, x.name, RN[g]);
        for (auto &f : PF) if (!close_enough(f, &x, &w)) { bad("collect", "rank %d, region %s: %s is %s, should be %s", r, RN[g], f.json, fval(f, &x).c_str(), fval(f, &w).c_str()); return; }
        mc::outcome(w.useful_time ? "metrics collected" : "metrics of an empty region collected");
    } else {
        dlb_node_metrics_t x; memset(&x, 0x5a, sizeof x); state[r] = 3; int rc = DLB_TALP_CollectPOPNodeMetrics(g == 0 ? DLB_GLOBAL_REGION : m, &x); state[r] = 1; resolve(r); if (was) l_open(r, g); int np = 0; int64_t tu = 0, tm = 0, mu = 0, mm = 0;
        for (int i = 0; i < C.n; ++i) if (C.node[i] == C.node[r]) { auto &l = snap[k][i]; if (l.useful || l.mpi) { ++np; tu += l.useful; tm += l.mpi; mu = std::max(mu, l.useful); mm = std::max(mm, l.mpi); } }
        if (!np) { if (rc != DLB_ERR_NOENT) bad("collect", "rank %d: CollectPOPNodeMetrics of the unused region %s returns %s", r, RN[g], errname(rc)); mc::outcome("node metrics of an empty region"); return; }
        if (!okrc(rc, "CollectPOPNodeMetrics")) return; double el = (tu + tm) / np, pe = (double)tu / (tu + tm), ce = mu / el, lb = mu ? (double)tu / np / mu : 0; if (el == 0) pe = ce = lb = 0;
        if (strcmp(x.name, RN[g]) || x.node_id != C.node[r] || x.processes_per_node != np || x.total_useful_time != tu || x.total_mpi_time != tm || x.max_useful_time != mu || x.max_mpi_time != mm) bad("collect", "rank %d, region %s: node %d, %d processes, useful %ld (max %ld), MPI %ld (max %ld); should be node %d, %d processes, useful %ld (%ld), MPI %ld (%ld)", r, RN[g], x.node_id, x.processes_per_node, (long)x.total_useful_time, (long)x.max_useful_time, (long)x.total_mpi_time, (long)x.max_mpi_time, C.node[r], np, (long)tu, (long)mu, (long)tm, (long)mm);
        else if (!(fabs(x.parallel_efficiency - pe) < 1e-5 && fabs(x.communication_efficiency - ce) < 1e-5 * std::max(1., ce) && fabs(x.load_balance - lb) < 1e-5)) bad("collect", "rank %d, region %s: efficiencies %g, %g, %g; should be %g, %g, %g", r, RN[g], x.parallel_efficiency, x.communication_efficiency, x.load_balance, pe, ce, lb);
        mc::outcome("node metrics collected");
    }
}
static void calls(int r, int k) { for (auto &l : L[r]) if (l.open) l.calls += k; }
static void *rank_main(void *arg) {
    int r = (int)(long)arg; int prov; char *argv0[] = {nullptr}, **argv = argv0; int argc = 0;
    if (C.init == I_DLB && !okrc(DLB_Init(0, nullptr, nullptr), "DLB_Init")) return nullptr;
    if (C.init == I_THREAD) MPI_Init_thread(&argc, &argv, 3, &prov); else MPI_Init(&argc, &argv);
    state[r] = 1; l_open(r, 0); L[r][0].avg = ncpu(r); calls(r, 1);
    for (const char *s = C.script[r]; *s && !mc::is_bad(); ++s) switch (*s) {
        case '1': case '2': case '3': case '4': case '5': case '6': case '7': case '8': case '9': adv(*s - '0'); break;
        case 'h': adv(1000000007L << 20); break;
        case 'M': state[r] = 2; MPI_Barrier(ompi_mpi_comm_world); state[r] = 1; calls(r, 1); break;
        case 'm': state[r] = 2; { char c[64]; MPI_Recv(c, 1, ompi_mpi_char, 0, 0, ompi_mpi_comm_world, nullptr); } state[r] = 1; calls(r, 1); break;
        case 'i': state[r] = 2; { char c[64]; MPI_Isend(c, 1, ompi_mpi_char, 0, 0, ompi_mpi_comm_world, c); } state[r] = 1; calls(r, 1); break;
        case 'G': case 'A': case 'B': case 'g': case 'a': case 'b': case 'x': case 'y': case 'z': { int g = strchr("Ggx", *s) ? 0 : strchr("Aay", *s) ? 1 : 2; dlb_monitor_t *m = DLB_MonitoringRegionRegister(RN[g]); if (!m) { bad("api", "rank %d: region %s cannot be registered", r, RN[g]); break; } l_reg(r, g);
            bool was = L[r][g].open; int rc; if (isupper(*s)) { rc = DLB_MonitoringRegionStart(m); l_open(r, g); if (rc != (was || !sel[g] ? DLB_NOUPDT : DLB_SUCCESS)) bad("api", "rank %d: RegionStart returns %s", r, errname(rc)); } else if (*s < 'x') { rc = DLB_MonitoringRegionStop(m); l_close(r, g); if (rc != (was ? DLB_SUCCESS : DLB_NOUPDT)) bad("api", "rank %d: RegionStop returns %s", r, errname(rc)); }
            else { rc = DLB_MonitoringRegionReset(m); int k = L[r][g].resets + 1; L[r][g] = Led(); L[r][g].reg = true; L[r][g].resets = k; okrc(rc, "RegionReset"); } break; }
        case 'r': DLB_MonitoringRegionRegister(RN[1]); l_reg(r, 1); break;
        case 'P': collect(r, 0, false); break; case 'p': collect(r, 1, false); break;
        case 'N': collect(r, 0, true); break; case 'n': collect(r, 1, true); break;
        case 'D': { int rc = DLB_BarrierDetach(); if (rc < 0) okrc(rc, "BarrierDetach"); break; }
        case 'I': { const Inject *j = C.inj[r]; dlb_monitor_t *m = DLB_MonitoringRegionRegister(RN[1]); Led &l = L[r][1]; l.reg = true; l.avg = ncpu(r); m->num_cpus = l.ncpus = j->ncpus; m->useful_time = l.useful = j->useful; m->mpi_time = l.mpi = j->mpi; m->elapsed_time = l.elapsed = j->elapsed; m->num_measurements = l.meas = j->meas; m->num_mpi_calls = l.calls = j->calls; m->num_omp_parallels = l.par = j->par; m->num_omp_tasks = l.tasks = j->tasks; m->omp_load_imbalance_time = l.lb = j->lb; m->omp_scheduling_time = l.sched = j->sched; m->omp_serialization_time = l.serial = j->serial; m->cycles = l.cyc = j->cyc; m->instructions = l.ins = j->ins; break; }
        default: bad("script", "unknown operation %c", *s);
    }
    if (mc::is_bad()) return nullptr;
    calls(r, 1); l_close(r, 0); 
    state[r] = 0;
    if (C.fin == F_DLB) { okrc(DLB_Finalize(), "DLB_Finalize"); MPI_Finalize(); } else { MPI_Finalize(); if (C.init == I_DLB) okrc(DLB_Finalize(), "DLB_Finalize"); }
    over[r] = true; return nullptr;
}
static void hook(const char *path, const char *mode, const char *d, size_t n) { writer = G.cur_proc; ++nwrites; (void)mode; out[path] = string(d, n); }
static string desc() { string s = fmt("nodes"); for (int r = 0; r < C.n; ++r) s += fmt(" %d", C.node[r]); s += fmt(" summary %d model %d fold %d order", C.sum, C.model, C.fold); for (int r = 0; r < C.n; ++r) s += fmt("%d", C.order[r]); s += fmt(" init %d fin %d %s", C.init, C.fin, C.extra ? C.extra : ""); for (int r = 0; r < C.n; ++r) { s += " "; s += C.script[r]; if (C.inj[r]) s += fmt("(%d,%ld,%ld,%ld)", C.inj[r]->ncpus, (long)C.inj[r]->useful, (long)C.inj[r]->mpi, (long)C.inj[r]->meas); } return s; }
static void expect() {
    for (int r = 0; r < C.n; ++r) if (!over[r]) { if (!G.proc[r].alive) bad("crash", "rank %d: %s: %s", r, exc_name[G.proc[r].exitcode], vn_lastmsg); else bad("deadlock", "rank %d never ends", r); return; }
    if (vn_shm_count()) { bad("leak", "%d shared memories left", vn_shm_count()); return; }
    if (!C.sum) { if (nwrites) bad("report", "a report was written"); return; }
    if (nwrites != 1 || writer != 0 || out.size() != 1) { bad("report", "the report was written %d times, the last one by rank %d", nwrites, writer); return; }
    PJ p(out.begin()->second); J j = p.all(); if (!p.ok) { bad("report", "invalid JSON: %s", esc(out.begin()->second).substr(0, 300).c_str()); return; }
    auto byname = [](J *a) { if (a) std::sort(a->m.begin(), a->m.end(), [](auto &x, auto &y) { return x.first < y.first; }); }; byname((J *)j.get("Application")); byname((J *)j.get("Process"));
    if (J *a = (J *)j.get("node")) { auto id = [](const char *k) { return [k](const std::pair<string, J> &x, const std::pair<string, J> &y) { const J *u = x.second.get(k), *v = y.second.get(k); return u && v && atol(u->s.c_str()) < atol(v->s.c_str()); }; }; std::sort(a->m.begin(), a->m.end(), id("id")); for (auto &e : a->m) if (J *ps = (J *)e.second.get("process")) std::sort(ps->m.begin(), ps->m.end(), id("id")); }
    Data d; std::vector<int> regs; for (int g : {1, 2, 0}) for (int r = 0; r < C.n; ++r) if (L[r][g].reg) { regs.push_back(g); break; } std::sort(regs.begin(), regs.end(), [](int a, int b) { return string(RN[a]) < RN[b]; });
    for (int g : regs) for (int r = 0; r < C.n; ++r) if (!L[r][g].reg) L[r][g].avg = ncpu(r);
    if (C.sum & POP) { for (int g : regs) { dlb_pop_metrics_t m; Led v[NR]; for (int r = 0; r < C.n; ++r) v[r] = L[r][g]; const J *a = j.get("Application"); const J *e = a ? a->get(RN[g]) : nullptr; e = e ? e->get("mpiNormdOfMaxUseful") : nullptr; aggregate(g, v, m, e ? atof(e->s.c_str()) : 0, false); d.pop.push_back(m); if (g == 0 && m.elapsed_time) { d.res[0] = m.num_cpus; d.res[1] = m.num_nodes; d.res[2] = C.n; } } }
    int nn = 0; for (int r = 0; r < C.n; ++r) nn = std::max(nn, C.node[r] + 1);
    if (C.sum & NODE) for (int k = 0; k < nn; ++k) { Node x; x.id = k; memset(x.t, 0, sizeof x.t); for (int r = C.n - 1; r >= 0; --r) if (C.node[r] == k) { process_in_node_record_t q; q.pid = G.proc[r].pid; q.mpi_time = L[r][0].mpi; q.useful_time = L[r][0].useful; x.p.push_back(q); x.t[0] += q.useful_time; x.t[1] += q.mpi_time; x.t[2] = std::max<int64_t>(x.t[2], q.useful_time); x.t[3] = std::max<int64_t>(x.t[3], q.mpi_time); } x.t[0] /= (int64_t)x.p.size(); x.t[1] /= (int64_t)x.p.size(); d.node.push_back(x); }
    if (C.sum & PROC) for (int g : regs) { Region q; q.name = RN[g]; for (int r = 0; r < C.n; ++r) { auto &l = L[r][g]; process_record_t x; memset(&x, 0, sizeof x); x.rank = r; x.pid = G.proc[r].pid; x.node_id = C.node[r]; strcpy(x.hostname, "vnode"); string cs = "["; for (int i = 0; i < ncpu(r); ++i) cs += fmt(i ? ",%d" : "%d", 2 * r + i); if (ncpu(r) == 2) cs = fmt("[%d,%d", 2 * r, 2 * r + 1); cs += "]"; snprintf(x.cpuset, sizeof x.cpuset, "%s", cs.c_str());
            auto &m = x.monitor; m.num_cpus = l.ncpus; m.avg_cpus = l.avg; m.cycles = l.cyc; m.instructions = l.ins; m.num_measurements = l.meas; m.num_resets = l.resets; m.num_mpi_calls = l.calls; m.num_omp_parallels = l.par; m.num_omp_tasks = l.tasks; m.elapsed_time = l.elapsed; m.useful_time = l.useful; m.mpi_time = l.mpi; m.omp_load_imbalance_time = l.lb; m.omp_scheduling_time = l.sched; m.omp_serialization_time = l.serial; q.r.push_back(x); } d.proc.push_back(q); }
    if (getenv("MPI_SHOW")) { puts(out.begin()->second.c_str()); for (auto &m : d.pop) for (auto &f : PF) printf("%s %s=%s\n", m.name, f.json, fval(f, &m).c_str()); for (int r = 0; r < C.n; ++r) for (int g = 0; g < NREG; ++g) printf("rank %d %s useful %ld mpi %ld elapsed %ld calls %ld\n", r, RN[g], (long)L[r][g].useful, (long)L[r][g].mpi, (long)L[r][g].elapsed, (long)L[r][g].calls); }
    check_jdata(j, d); mc::outcome(fmt("%d ranks on %d nodes", C.n, nn));
}
static void run() {
    if (!mc::begin_case(desc())) return;
    vn_reset(); vn_tick = 0; out.clear(); nwrites = 0; writer = -1; vn_file_hook = hook; fm::in_call = incall; fm::reset(C.n, C.node); fm::fold = C.fold; memset(L, 0, sizeof L); memset(state, 0, sizeof state); memset(over, 0, sizeof over); memset(nsnap, 0, sizeof nsnap); memset(snap, 0, sizeof snap);
    string sm; if (C.sum & POP) sm += "pop-metrics:"; if (C.sum & PROC) sm += "process:"; if (C.sum & NODE) sm += "node:"; if (sm.empty()) sm = "none:"; sm.pop_back();
    for (int r = 0; r < C.n; ++r) { int s = vn_spawn(900 - 10 * r); G.proc[s].affinity[0] = ((1UL << ncpu(r)) - 1) << (2 * r); topo(s, 2 * NR, 2 * NR, 1); vn_setenv(s, "DLB_ARGS", fmt("--talp --shm-key=n%d --talp-summary=%s --talp-model=hybrid-v%d --talp-output-file=r.json %s", C.node[r], sm.c_str(), C.model, C.extra ? C.extra : "").c_str()); }
    for (int i = 0; i < C.n; ++i) vn_thread_create_in(C.order[i], rank_main, (void *)(long)C.order[i]);
    vn_run_helpers(-1); if (!mc::is_bad()) expect();
    mc::eval(C.n > 1); mc::end_case();
}
static void base(int n) { C = Case(); C.n = n; C.sum = POP | PROC | NODE; C.model = 2; for (int r = 0; r < n; ++r) C.order[r] = r; }
/* every placement of n ranks on nodes */
template<class F> static void placements(int n, F f) { int v[NR] = {0}; for (;;) { for (int r = 0; r < n; ++r) C.node[r] = v[r]; f(); int i = n - 1; for (; i > 0; --i) { int mx = *std::max_element(v, v + i); if (v[i] <= mx) { ++v[i]; break; } v[i] = 0; } if (i <= 0) return; } }
template<class F> static void orders(int n, F f) { for (int r = 0; r < n; ++r) C.order[r] = r; do f(); while (std::next_permutation(C.order, C.order + n)); }
void mc_register() {
    /* placement of the ranks x kinds of report x execution orders x life cycles */
    static const char *work[NR] = {"5Ma2M1", "3M7AmaM", "9MA4aM2i", "M6M"};
    for (int n = 1; n <= NR; ++n) for (int init : {I_DLB, I_MPI, I_THREAD}) for (int fin : {F_MPI, F_DLB}) mc::job(fmt("place.%d.%d.%d", n, init, fin), [=] {
        base(n); C.init = init; C.fin = fin; for (int r = 0; r < n; ++r) C.script[r] = work[r];
        placements(n, [&] { for (C.sum = 0; C.sum < 8; ++C.sum) { if (n < 4 || mc::level > 0) orders(n, run); else { for (int k = 0; k < n; ++k) { for (int r = 0; r < n; ++r) C.order[r] = (r + k) % n; run(); } } } });
    }, n * n);
    /* values of a region: reductions */
    for (int n = 2; n <= 3; ++n) for (int model : {1, 2}) mc::job(fmt("reduce.%d.v%d", n, model), [=] {
        static Inject V[12]; static const Inject vs[] = {{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, {1, 3, 0, 4, 1, 1, 0, 0, 0, 0, 0, 7, 0}, {2, 3, 1, 5, 2, 0, 1, 2, 3, 4, 5, 0, 9}, {4, 1, 2, 1, 1, 3, 0, 0, 0, 1, 0, 1, 1}, {1, 0, 9, 9, 1, 2, 0, 1, 0, 0, 2, 0, 0}, {3, 1L << 40, (1L << 40) + 3, 1L << 41, 5, 1L << 33, 1L << 34, 3, 1L << 35, 1L << 36, 1L << 37, 1L << 50, 1L << 51}, {48, 30, 7, 10, 1, 0, 0, 0, 1, 1, 1, 0, 0}}; memcpy(V, vs, sizeof vs);
        int nv = n == 2 || mc::level > 0 ? 7 : 5; base(n); C.model = model; C.sum = POP | PROC; for (int r = 0; r < n; ++r) C.script[r] = "IpM";
        int tot = 1; for (int r = 0; r < n; ++r) tot *= nv; placements(n, [&] { for (C.fold = 0; C.fold < 3; ++C.fold) for (int k = 0; k < tot; ++k) { int x = k; for (int r = 0; r < n; ++r) { C.inj[r] = &V[x % nv]; x /= nv; } run(); } });
    }, n * 4);
    /* every script of regions, MPI calls and collective queries on two ranks */
    static const char *A1[] = {"", "2", "M", "A", "a", "B", "b", "x", "y", "m", "Aa", "g", "G", "r"}; static std::vector<string> pool;
    for (int pl = 0; pl < 2; ++pl) for (const char *q : {"", "P", "p", "N", "n"}) mc::job(fmt("script.%d.%s", pl, *q ? q : "none"), [=] {
        pool.clear(); base(2); C.node[1] = pl; C.extra = pl ? "" : "--talp-external-profiler"; int na = 14;
        /* both ranks call the collective operations the same number of times: M only in the common part */
        std::vector<string> pre, post; for (int i = 0; i < na; ++i) if (!strchr(A1[i], 'M')) pre.push_back(A1[i]); post = pre; if (mc::level > 1 && *q) { for (auto &a : std::vector<string>(pre)) for (auto &b : std::vector<string>(pre)) if (!a.empty() && !b.empty()) pre.push_back(a + b); }
        for (auto &a : pre) for (auto &b : post) for (auto &c : post) { if (&c - &post[0] > 0 && !q[0]) continue; string s0 = "3A" + a + "1" + q + b + "M2ab", s1 = string("1") + c + q + "4M5" + a + "ab"; C.script[0] = s0.c_str(); C.script[1] = s1.c_str(); run(); }
    }, 4);
    /* several collective queries in a row, every execution order */
    for (int n = 2; n <= 3; ++n) mc::job(fmt("collect.%d", n), [=] {
        static const char *ops[] = {"P", "p", "N", "n", "M", "2", "A", "a"}; int no = 8, len = n == 2 && mc::level > 0 ? 4 : mc::level > 1 ? 4 : 3; base(n); C.sum = POP; int tot = 1; for (int i = 0; i < len; ++i) tot *= no;
        for (const char *ex : {"", "--talp-external-profiler", "--lewi"}) { C.extra = ex; placements(n, [&] { for (int k = 0; k < tot; ++k) { string s; int x = k; for (int i = 0; i < len; ++i) { s += ops[x % no]; x /= no; } string v[NR]; for (int r = 0; r < n; ++r) { v[r] = fmt("%d", 1 + r) + s + fmt("%da", 3 - r); C.script[r] = v[r].c_str(); } if (n == 2) orders(n, run); else { for (int d = 0; d < 2; ++d) { for (int r = 0; r < n; ++r) C.order[r] = d ? n - 1 - r : r; run(); } } } }); }
    }, n * 3);
    mc::job("regions", [] {
        /* any rank knows any subset of the regions */
        static const char *sub[] = {"2", "A3a", "B1b", "A1a4B1b", "AB5ba", "r"}; for (int n = 2; n <= 3; ++n) { base(n); int tot = 1; for (int r = 0; r < n; ++r) tot *= 6; placements(n, [&] { for (int k = 0; k < tot; ++k) { int x = k; for (int r = 0; r < n; ++r) { C.script[r] = sub[x % 6]; x /= 6; } for (C.sum = 1; C.sum < 8; ++C.sum) run(); } }); }
    }, 4);
    /* names: as long as possible, longer ones that only differ in what is cut, special characters; disabled regions */
    for (int v = 0; v < 9; ++v) mc::job(fmt("names.%d", v), [=] {
        static const char *nm[][2] = {{"", ""}, {"A b", "A:b,c"}, {"all regions", "ALLx"}, {"\xc3\xa9t\xc3\xa9", "#@!"}, {"A", "B"}, {"A", "B"}, {"A", "B"}, {"A", "B"}, {"A", "B"}};
        static const char *ex[] = {"", "", "", "", "--talp-region-select=A", "--talp-region-select=exclude:A", "--talp-region-select=include:global,B", "--talp-region-select=exclude:all", "--talp-region-select=include:all --talp-external-profiler"}; static const bool on[][3] = {{1, 1, 1}, {1, 1, 1}, {1, 1, 1}, {1, 1, 1}, {0, 1, 0}, {1, 0, 1}, {1, 0, 1}, {0, 0, 0}, {1, 1, 1}};
        if (!v) { longname[0] = string(127, 'n'); longname[1] = string(126, 'n') + "m"; nm[0][0] = longname[0].c_str(); nm[0][1] = longname[1].c_str(); } RN[1] = nm[v][0]; RN[2] = nm[v][1]; memcpy(sel, on[v], sizeof sel);
        static const char *sub[] = {"2", "A3a", "B1b", "A1a4B1MbpP", "AB5MbaPp", "rN", "gG2", "x3Gn"}; static const bool coll[] = {0, 0, 0, 1, 1, 0, 0, 0}; base(2); placements(2, [&] { for (int a = 0; a < 8; ++a) for (int b = 0; b < 8; ++b) { string s0 = sub[a], s1 = sub[b]; if (coll[a] || coll[b]) { if (a != b) continue; } if (strpbrk(sub[a], "Nn") || strpbrk(sub[b], "Nn")) if (a != b) continue; C.script[0] = sub[a]; C.script[1] = sub[b]; C.extra = ex[v]; for (C.sum = 1; C.sum < 8; ++C.sum) for (C.model = 1; C.model < 3; ++C.model) orders(2, run); } });
        RN[1] = "A"; RN[2] = "B"; memset(sel, 1, sizeof sel);
    }, 1);
    mc::job("detach", [] {
        /* any rank leaves the node barrier before the end, while nobody waits in it */
        for (int n = 2; n <= 3; ++n) { base(n); for (int k = 1; k < 1 << n; ++k) for (int early = 0; early < 2; ++early) { string v[NR]; for (int r = 0; r < n; ++r) { v[r] = (k >> r & 1) ? early ? string("D") + work[r] : work[r] + string("DM") : early ? work[r] : work[r] + string("M"); C.script[r] = v[r].c_str(); } placements(n, [&] { for (C.sum = 0; C.sum < 8; ++C.sum) orders(n, run); }); } }
    }, 3);
    /* other features enabled */
    for (const char *ex : {"--lewi", "--drom", "--no-barrier", "--talp-external-profiler", "--lewi --lewi-mpi-calls=none", "--no-lewi-barrier", "--lewi --drom --lewi-affinity=mask"}) mc::job(fmt("with.%s", [](string s) { for (auto &c : s) if (!isalnum(c)) c = '_'; return s; }(ex).c_str()), [=] {
        for (int n = 2; n <= 3; ++n) { base(n); C.extra = ex; for (int r = 0; r < n; ++r) C.script[r] = work[r]; for (C.init = 0; C.init < 3; C.init += 2) for (C.fin = 0; C.fin < 2; ++C.fin) placements(n, [&] { for (C.sum = 0; C.sum < 8; ++C.sum) orders(n, run); }); }
    }, 3);
}
