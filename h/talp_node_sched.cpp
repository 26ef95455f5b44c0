/* DLB_TALP_CollectPOPNodeMetrics, a collective of the processes of the node: every interleaving, with a bounded number of
 * preemptions, of 2 and 3 processes that call it (with or without a shared memory of their own) and go on using TALP. */
#include "sched.h"
using mc::bad; using mc::fmt; using namespace sc;
extern "C" { long shim_mpi_init(void), shim_mpi_fini(void); }
enum { MP = 3 };
static struct User { dlb_monitor_t *g[MP], *a[MP]; int64_t us[MP][2]; dlb_node_metrics_t m[MP][3]; int ret[MP][3], n[MP]; } U;
static int np;
static void collect(int p, int r) { int k = U.n[p]++; memset(&U.m[p][k], 0x11, sizeof U.m[p][k]); U.ret[p][k] = DLB_TALP_CollectPOPNodeMetrics(r == 2 ? nullptr : r ? U.a[p] : U.g[p], &U.m[p][k]); }
static void fini(int, int) { DLB_Finalize(); }
static void query(int p, int) { dlb_node_metrics_t m; DLB_TALP_QueryPOPNodeMetrics(nullptr, &m); (void)p; }
static Step CG{collect, 0, "Collect(Global)"}, CN{collect, 2, "Collect(NULL)"}, CA{collect, 1, "Collect(A)"}, F{fini, 0, "Finalize"}, Q{query, 0, "Query"};
static void scen(int n, const char *args, int min, const std::vector<Step> &v, Step last = {nullptr, 0, ""}, int extra = -1) {
    np = n; clear(); std::vector<Step> w = v; if (last.f) w.push_back(last); for (int i = 0; i < n; ++i) { thread(i, w); } (void)extra;
    if (!mc::scenario(name() + " " + args)) return;
    vn_tick = 0; memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; vn_keep_durations = 1; vn_reset(); vn_sysconf_cpus = 4; vn_heap_check = 1;
    for (int i = 0; i < n; ++i) vn_spawn(1001 + i);
    for (int i = 0; i < n; ++i) {
        cpu_set_t c = to_set(1UL << i); topo(i, 4, 4, 1); std::string a = std::string("--quiet --lewi=no --barrier --talp --talp-summary=") + (min ? "node " : "none ") + args; long e = IN(i, DLB_Init(0, &c, a.c_str())); if (mc::is_bad()) return; if (e) { bad("init", "DLB_Init %s", errname(e)); return; }
        IN(i, shim_mpi_init()); U.g[i] = (dlb_monitor_t*)IN(i, DLB_MonitoringRegionGetGlobal()); U.a[i] = (dlb_monitor_t*)IN(i, DLB_MonitoringRegionRegister("A")); IN(i, DLB_MonitoringRegionStop(U.g[i])); IN(i, DLB_MonitoringRegionReset(U.g[i])); if (mc::is_bad()) return;
        IN(i, DLB_MonitoringRegionStart(U.g[i])); G.now += 1000 * (i + 1); IN(i, DLB_MonitoringRegionStart(U.a[i])); G.now += 7000 * (i + 1); IN(i, DLB_MonitoringRegionStop(U.a[i])); IN(i, DLB_MonitoringRegionStop(U.g[i])); if (mc::is_bad()) return;
        U.us[i][0] = 8000 * (i + 1); U.us[i][1] = 7000 * (i + 1);
    }
    start(); mc::Sched s; s.preemptions = (n > 2 ? 1 : 2) + mc::level;
    s.at_end = [=](bool dead) {
        if (dead) { bad("deadlock", "the processes are blocked for ever"); return; }
        for (int i = 0; i < np; ++i) for (int k = 0; k < U.n[i]; ++k) {
            int r = v[k].arg == 1; const dlb_node_metrics_t &m = U.m[i][k]; int64_t t = 0; for (int j = 0; j < np; ++j) t += U.us[j][r];
            if (U.ret[i][k] != DLB_SUCCESS) { bad("collect", "P%d: collective %d returned %s", i, k, errname(U.ret[i][k])); return; }
            if (m.processes_per_node != np || m.total_useful_time != t || m.max_useful_time != U.us[np-1][r] || m.total_mpi_time || strcmp(m.name, r ? "A" : "Global")) { bad("collect", "P%d: collective %d gives '%s': %d processes, useful %ld (max %ld), should be %d: %ld (%ld)", i, k, m.name, m.processes_per_node, (long)m.total_useful_time, (long)m.max_useful_time, np, (long)t, (long)U.us[np-1][r]); return; }
            mc::outcome("metrics of every process");
        }
        if (last.f == fini) { if (vn_shm_count()) bad("leftover", "%d shared memories left", vn_shm_count()); return; }
        /* what the others can see is as before */
        bool ext = strstr(args, "external"); if (!ext && !min) { if (vn_shm_find("/DLB_talp_0") >= 0) bad("leftover", "a temporary shared memory is left"); return; }
        for (int i = 0; i < np; ++i) { dlb_node_times_t l[8]; int ne = -1; long e = IN(i, DLB_TALP_GetNodeTimes(nullptr, l, &ne, 8)); if (mc::is_bad()) return; if (e || ne != np) { bad("after", "afterwards GetNodeTimes gives %s and %d processes", errname(e), ne); return; }
            e = IN(i, DLB_TALP_GetNodeTimes("A", l, &ne, 8)); if (mc::is_bad()) return; if (e || ne != (ext ? np : 0)) { bad("after", "afterwards GetNodeTimes(A) gives %s and %d processes", errname(e), ne); return; } }
    };
    mc::explore_schedules(s);
}
void mc_register() {
    for (int n : {2, 3}) {
        mc::job(fmt("%dp.temp", n), [=]() { scen(n, "", 0, {CG}); scen(n, "", 0, {CA}); scen(n, "", 0, {CN}, F); if (n == 2 || mc::level > 1) { scen(n, "", 0, {CG, CA}); scen(n, "", 0, {CA, CA}, F); } }, n * 3);
        mc::job(fmt("%dp.ext", n), [=]() { scen(n, "--talp-external-profiler", 0, {CG}); scen(n, "--talp-external-profiler", 0, {CA}, F); scen(n, "--talp-external-profiler", 0, {CN}, Q); if (n == 2 || mc::level > 1) scen(n, "--talp-external-profiler", 0, {CA, CG}); }, n * 3);
        mc::job(fmt("%dp.min", n), [=]() { scen(n, "", 1, {CG}); scen(n, "", 1, {CA}); scen(n, "", 1, {CN}, F); if (n == 2 || mc::level > 1) scen(n, "", 1, {CA, CG}); }, n * 3);
    }
}
