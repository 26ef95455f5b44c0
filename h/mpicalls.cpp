/* The MPI interception layer: every MPI call of the application, in C and Fortran, reaches the MPI library exactly once and unchanged,
 * and DLB acts around it as its options say: LeWI lends during the selected blocking calls, TALP counts the call and its time, DROM is
 * polled afterwards, and nothing happens out of MPI_Init .. MPI_Finalize.  Every function of the table of MPI calls is executed in
 * every configuration and phase of the life of the process; what each one should do is known here from the MPI standard. */
#include <algorithm>
#include <set>
#include "hn.h"
using std::string; using mc::fmt; using mc::bad;
extern "C" {
struct vf_call { const char *name, *params; void *fn; int fortran; }; extern vf_call vf_calls[];
long vf_pmpi(const char *name, int fortran, long *a); bool shmem_cpuinfo__is_guest(pid_t pid, int cpuid);
int MPI_Init(int *, char ***); int MPI_Finalize(void); int MPI_Init_thread(int *, char ***, int, int *); void mpi_init_(int *); void mpi_init_thread_(int *, int *, int *); void mpi_finalize_(int *);
char ompi_mpi_comm_world[512], ompi_mpi_info_null[512], ompi_mpi_int[512], ompi_mpi_char[512], ompi_mpi_float[512], ompi_mpi_double[512], ompi_mpi_int64_t[512], ompi_mpi_c_bool[512], ompi_mpi_cxx_bool[512], ompi_mpi_long[512], ompi_mpi_byte[512], ompi_mpi_op_max[64], ompi_mpi_op_min[64], ompi_mpi_op_sum[64], ompi_mpi_comm_self[512], ompi_mpi_comm_null[512], ompi_request_null[512], ompi_message_null[512], ompi_mpi_unsigned_long[512], ompi_mpi_unsigned[512];
#define STUB(f) long f(void) { return 0; }      /* not intercepted by DLB, used for the report only */
STUB(PMPI_Type_match_size) STUB(PMPI_Type_create_struct) STUB(PMPI_Type_create_resized) STUB(PMPI_Type_commit) STUB(PMPI_Type_free) STUB(PMPI_Type_contiguous) STUB(PMPI_Get_library_version)
}
static const std::set<string> P2P = {"Send", "Bsend", "Rsend", "Ssend", "Recv", "Sendrecv", "Sendrecv_replace", "Wait", "Waitall", "Waitany", "Waitsome", "Probe", "Mprobe", "Mrecv"};
static const std::set<string> COLL = {"Barrier", "Bcast", "Gather", "Gatherv", "Scatter", "Scatterv", "Allgather", "Allgatherv", "Alltoall", "Alltoallv", "Alltoallw", "Reduce", "Allreduce", "Reduce_scatter", "Reduce_scatter_block", "Scan", "Exscan", "Neighbor_allgather", "Neighbor_allgatherv", "Neighbor_alltoall", "Neighbor_alltoallv", "Neighbor_alltoallw"};
/* calls that may wait for other processes, or not; DLB decides */
static bool unspecified(const string &n) {
    static const std::set<string> s = {"Cart_create", "Cart_sub", "Graph_create", "Dist_graph_create", "Dist_graph_create_adjacent", "Intercomm_create", "Intercomm_merge", "Buffer_detach", "Comm_create", "Comm_create_group", "Comm_dup", "Comm_dup_with_info", "Comm_split", "Comm_split_type", "Comm_free", "Comm_spawn", "Comm_spawn_multiple", "Comm_accept", "Comm_connect", "Comm_disconnect", "Comm_join"};
    static const char *local[] = {"Win_create_keyval", "Win_free_keyval", "Win_get", "Win_set", "Win_delete_attr", "Win_test", "Win_attach", "Win_detach", "Win_sync", "Win_shared_query", "File_get", "File_iread", "File_iwrite", "File_set_atomicity"};
    if (s.count(n)) return true; if (n.compare(0, 4, "Win_") && n.compare(0, 5, "File_")) return false; for (auto l : local) if (!n.compare(0, strlen(l), l)) return false; return true;
}
enum { NO, YES, ANY };
static int blocking(const string &n) { return P2P.count(n) || COLL.count(n) ? YES : unspecified(n) ? ANY : NO; }
static int collective(const string &n) { return COLL.count(n) ? YES : unspecified(n) ? ANY : NO; }
static int count_params(const char *p) { int n = 0; string s = p; if (s == "void" || s.empty()) return 0; for (char c : s) n += c == ','; return n + 1; }
/* width of each parameter in the call */
static std::vector<int> widths(const char *p) { std::vector<int> w; string s = p, t; if (s == "void") return w; s += ","; for (char c : s) if (c == ',') { while (!t.empty() && t[0] == ' ') t.erase(0, 1); bool ptr = t.find('*') != string::npos || t.find('[') != string::npos; w.push_back(!ptr && !t.compare(0, 4, "int ") ? 4 : 8); t.clear(); } else t += c; return w; }
/* ---- the process and the MPI library (a single process) */
struct Cfg { const char *opt; bool lewi, talp, ext, drom; int set; };      /* set: 0 none, 1 barrier, 2 collectives, 3 all */
static Cfg cfg; static bool inited, ready, disabled, observer; static int mpi_up; static bool t2_on, main_obs; static string ctx; static int T2; static enum { CALLER_MAIN, CALLER_THREAD } caller;
struct Seen { string name; int fortran; long a[20]; bool lent; }; static std::vector<Seen> seen; static bool watching; static long ret; static int pid0; static std::vector<Mask> polled; static dlb_monitor_t *mon; static int64_t m_calls, m_mpi, m_useful; static int admin_mask;
static void gate(); static int hook_of_cur = -1;
static void cb_mask(const cpu_set_t *m, void *) { polled.push_back(from_set(m)); }
static bool is_lent() { return !shmem_cpuinfo__is_guest(pid0, 0); }
long vf_pmpi(const char *name, int fortran, long *a) {
    if (watching) { Seen s; s.name = name; s.fortran = fortran; memcpy(s.a, a, sizeof s.a); s.lent = cfg.lewi && inited && is_lent(); seen.push_back(s); if (hook_of_cur >= 0) { gate(); return 0; } G.now += 7; return ret; }
    string n = name + 4; void *q = (void *)a[1];
    if (n == "Init" || n == "Init_thread" || n == "Finalize") { Seen s; s.name = name; s.fortran = fortran; memcpy(s.a, a, sizeof s.a); seen.push_back(s); bool fin = n == "Finalize"; if (mpi_up != (fin ? 1 : 0)) bad("life", "%s is called twice", name); ++mpi_up; return fin ? ret : 0; }
    if (mpi_up != 1 && n != "Initialized" && n != "Finalized") bad("life", "DLB calls %s %s", name, mpi_up ? "after MPI_Finalize" : "before MPI_Init");
    if (n == "Comm_rank") *(int *)q = 0; else if (n == "Comm_size") *(int *)q = 1; else if (n == "Comm_dup") *(void **)q = ompi_mpi_comm_world; else if (n == "Comm_split" || n == "Comm_split_type") *(void **)a[n == "Comm_split" ? 3 : 4] = ompi_mpi_comm_self;
    else if (n == "Allgather" || n == "Allgatherv") memcpy((void *)a[3], (void *)a[0], (int)a[1] * ((char *)a[2] == ompi_mpi_int ? 4 : 1));
    return 0;
}
static const long SENT[20] = {0x7e11000100010001, 0x7e22000200020002, 0x7e33000300030003, 0x7e44000400040004, 0x7e55000500050005, 0x7e66000600060006, 0x7e77000700070007, 0x7e88000800080008, 0x7e99000900090009, 0x7eaa000a000a000a, 0x7ebb000b000b000b, 0x7ecc000c000c000c, 0x7edd000d000d000d, 0x7eee000e000e000e, 0x7eff000f000f000f, 0x7e11001000100010, 0x7e22001100110011, 0x7e33001200120012, 0x7e44001300130013, 0x7e55001400140014};
static long invoke(const vf_call &c) { typedef long F(long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long, long); const long *s = SENT; return ((F *)c.fn)(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19]); }
static bool life(const vf_call &c) { string n = c.name + 4; return n == "Init" || n == "Init_thread" || n == "Finalize"; }
static void resync() { if (!mon) return; IN(0, DLB_MonitoringRegionsUpdate()); m_calls = mon->num_mpi_calls; m_mpi = mon->mpi_time; m_useful = mon->useful_time; }
static void one(const vf_call &c, int result = 0x1234567) {
    if (mc::is_bad()) return; string n = c.name + 4; std::vector<int> w = widths(c.params); seen.clear(); ret = result; string id = fmt("%s%s %s%s", c.name, c.fortran ? " (Fortran)" : "", ctx.c_str(), caller == CALLER_THREAD ? ", from another thread" : "");
    bool poll = cfg.drom && inited; if (poll) { admin_mask ^= 2; int rc = in_proc(1, [&]() -> long { cpu_set_t m = to_set(admin_mask); return DLB_DROM_SetProcessMask(pid0, &m, (dlb_drom_flags_t)0); }); if (rc) { bad("setup", "SetProcessMask: %s", errname(rc)); return; } } polled.clear();
    G.now += 5; int calls0 = mon ? mon->num_mpi_calls : 0; bool was = cfg.lewi && inited && is_lent(); auto f = [&]() -> long { watching = true; long r = invoke(c); watching = false; return r; }; int got = caller == CALLER_THREAD ? in_thread(T2, f) : in_proc(0, f); (void)calls0; watching = false; if (mc::is_bad()) return;
    if (seen.size() != 1) { bad("calls", "%s: the MPI library is called %zu times", id.c_str(), seen.size()); return; }
    Seen &s = seen[0]; if (s.name != c.name || s.fortran != c.fortran) { bad("calls", "%s: %s%s is called in the MPI library", id.c_str(), s.name.c_str(), s.fortran ? " (Fortran)" : ""); return; }
    if (!c.fortran && got != result) { bad("result", "%s returns %d instead of %d", id.c_str(), got, result); return; }
    for (size_t i = 0; i < w.size(); ++i) if (w[i] == 4 ? (int)s.a[i] != (int)SENT[i] : s.a[i] != SENT[i]) { bad("arguments", "%s: argument %zu of %zu is not the one of the application", id.c_str(), i + 1, w.size()); return; }
    bool act = inited && ready && !observer;
    if (cfg.lewi && inited) {
        int b = blocking(n), k = collective(n); bool may = act && !disabled && cfg.set && b && (cfg.set == 3 || (cfg.set == 2 && k) || (cfg.set == 1 && n == "Barrier")), must = may && b == YES && (cfg.set != 2 || k == YES);
        if (!was && s.lent && !may) { bad("lewi", "%s: CPUs are lent during the call", id.c_str()); return; }
        if (!s.lent && must) { bad("lewi", "%s: CPUs are not lent during the call", id.c_str()); return; }
        if (is_lent() != was) { bad("lewi", "%s: the CPUs are %s after the call", id.c_str(), was ? "acquired" : "still lent"); return; }
        mc::outcome(s.lent ? "lends" : "does not lend");
    }
    if (mon) {
        int64_t ec = m_calls + act, em = m_mpi + (act ? 7 : 0), eu = m_useful + (act ? (caller == CALLER_MAIN ? 5 + (t2_on ? 12 : 0) : 12 + (t2_on ? 5 : 0)) : 0); if (act && caller == CALLER_THREAD) t2_on = true;
        if (cfg.ext && act && blocking(n) == YES && collective(n) == YES && (mon->num_mpi_calls != ec || mon->mpi_time != em)) { bad("live", "%s: %ld calls, MPI time %ld in the live measurements, should be %ld, %ld", id.c_str(), (long)mon->num_mpi_calls, (long)mon->mpi_time, (long)ec, (long)em); return; }
        if (main_obs) in_thread(T2, []() -> long { return DLB_MonitoringRegionsUpdate(); }); else IN(0, DLB_MonitoringRegionsUpdate());
        if (!observer && (mon->num_mpi_calls != ec || mon->mpi_time != em || (act && !main_obs && mon->useful_time != eu))) { bad("talp", "%s: %ld calls, MPI time %ld, useful time %ld; should be %ld, %ld, %ld", id.c_str(), (long)mon->num_mpi_calls, (long)mon->mpi_time, (long)mon->useful_time, (long)ec, (long)em, (long)eu); return; }
        m_calls = ec; m_mpi = em; m_useful = mon->useful_time; mc::outcome(act ? "counted" : "not counted");
    }
    if (poll && (polled.size() != 1 || polled[0] != (Mask)admin_mask)) { bad("drom", "%s: %s after the call, a new mask %s was pending", id.c_str(), polled.empty() ? "the mask is not updated" : "wrong update of the mask", mstr(admin_mask).c_str()); return; }
}
enum Init { I_DLB, I_MPI, I_THREAD, I_F, I_FTHREAD };
static int mpi_life(const char *what, std::function<long()> f) { seen.clear(); int n0 = 0; (void)n0; long r = in_proc(0, f); (void)what; return r; }
static void boot(const Cfg &k, bool clash = false) {
    vn_reset(); vn_tick = 0; cfg = k; inited = ready = disabled = observer = false; mon = nullptr; admin_mask = 3; caller = CALLER_MAIN; polled.clear(); m_calls = m_mpi = m_useful = 0;
    for (int p = 0; p < 2; ++p) { int s = vn_spawn(500 + p); G.proc[s].affinity[0] = p && !clash ? 4 : 3; topo(s, 4, 4, 1); vn_setenv(s, "DLB_ARGS", fmt("--talp-summary=none %s", k.opt).c_str()); if (!s) pid0 = G.proc[s].pid; }
    if (k.drom) { if (clash) { cpu_set_t m = to_set(3); int rc = IN(1, DLB_Init(0, &m, nullptr)); if (rc) bad("setup", "DLB_Init: %s", errname(rc)); } else { int rc = IN(1, DLB_DROM_Attach()); if (rc) bad("setup", "DROM_Attach: %s", errname(rc)); } }
    mpi_up = 0; seen.clear(); T2 = -1; hook_of_cur = -1; t2_on = main_obs = false; ctx = string("with ") + (*k.opt ? k.opt : "no options");
}
static void callbacks() { in_proc(0, []() -> long { return DLB_CallbackSet(dlb_callback_set_process_mask, (dlb_callback_t)cb_mask, nullptr); }); }
static void start(int how, bool fails = false) {
    int prov = 0, req = 3, ierr; if (how == I_DLB) { cpu_set_t m = to_set(3); int rc = IN(0, DLB_Init(0, &m, nullptr)); if (rc) { bad("setup", "DLB_Init: %s", errname(rc)); return; } }
    int argc = 0; char **argv = nullptr; in_proc(0, [&]() -> long { switch (how) { case I_THREAD: return MPI_Init_thread(&argc, &argv, 3, &prov); case I_F: mpi_init_(&ierr); return 0; case I_FTHREAD: mpi_init_thread_(&req, &prov, &ierr); return 0; default: return MPI_Init(&argc, &argv); } });
    if (mc::is_bad()) return; ready = true; if (fails) return; inited = true; callbacks(); if (cfg.talp) { mon = (dlb_monitor_t *)in_proc(0, []() -> long { return (long)DLB_MonitoringRegionGetGlobal(); }); if (!mon) bad("setup", "no global region"); resync(); if (mon->num_mpi_calls != 1) bad("talp", "%ld MPI calls after MPI_Init", (long)mon->num_mpi_calls); }
}
static const Cfg CFG[] = {
    {"", false, false, false, false, 0}, {"--lewi --lewi-affinity=mask", true, false, false, false, 3}, {"--lewi --lewi-affinity=mask --lewi-mpi-calls=all", true, false, false, false, 3}, {"--lewi --lewi-affinity=mask --lewi-mpi-calls=none", true, false, false, false, 0}, {"--lewi --lewi-affinity=mask --lewi-mpi-calls=barrier", true, false, false, false, 1}, {"--lewi --lewi-affinity=mask --lewi-mpi-calls=collectives", true, false, false, false, 2},
    {"--talp", false, true, false, false, 0}, {"--talp --talp-external-profiler", false, true, true, false, 0}, {"--drom", false, false, false, true, 0}, {"--lewi --lewi-affinity=mask --talp --drom", true, true, false, true, 3}, {"--lewi --lewi-affinity=mask --talp --drom --talp-external-profiler --lewi-mpi-calls=collectives", true, true, true, true, 2}, {"--lewi --talp --lewi-mpi-calls=none", false, true, false, false, 0}, {"--no-drom --no-lewi --no-talp", false, false, false, false, 0},
};
static const vf_call *find(const char *n, int f) { for (vf_call *c = vf_calls; c->name; ++c) if (!strcmp(c->name + 4, n) && c->fortran == f) return c; return nullptr; }
enum Phase { NORMAL, BEFORE_INIT, AFTER_FINALIZE, DLB_GONE, NO_DLB, DISABLED, OBSERVER, THREAD, NPHASE };
static const char *phn[] = {"", ", before MPI_Init", ", after MPI_Finalize", ", after DLB_Finalize", ", after DLB_Init failed", ", LeWI disabled", ", observer thread", ""};
static void setup(const Cfg &k, int ph, int how) {
    boot(k, ph == NO_DLB);
    if (ph != BEFORE_INIT) start(how, ph == NO_DLB); if (mc::is_bad()) return;
    if (ph == AFTER_FINALIZE) { in_proc(0, [&]() -> long { int e; if (how == I_F) { mpi_finalize_(&e); return 0; } return MPI_Finalize(); }); ready = false; inited = how == I_DLB; mon = nullptr; }
    if (ph == DLB_GONE) { int rc = IN(0, DLB_Finalize()); if (rc) bad("setup", "DLB_Finalize: %s", errname(rc)); ready = inited = false; mon = nullptr; }
    if (ph == NO_DLB) { inited = false; mon = nullptr; }
    if (ph == DISABLED) { int rc = IN(0, DLB_Disable()); if (rc && k.lewi) bad("setup", "DLB_Disable: %s", errname(rc)); disabled = true; }
    if (ph == OBSERVER) { IN(0, DLB_SetObserverRole(true)); observer = true; }
    if (ph == THREAD) { T2 = vn_thread_extra(0); caller = CALLER_THREAD; }
    ctx += phn[ph];
}
/* ---- sequences of calls, also of the API and from two threads */
static const struct { const char *n; int f, th; } REP[] = {{"Send", 0, 0}, {"Barrier", 0, 0}, {"Allreduce", 1, 0}, {"Ibarrier", 0, 0}, {"Comm_rank", 1, 0}, {"Barrier", 1, 1}, {"Isend", 0, 1}, {"Waitall", 0, 1}};
enum { NREP = 8, S_DISABLE = NREP, S_ENABLE, S_OBS, S_UNOBS, S_END, NSEQ };
static void step(int o) {
    if (o < NREP) { caller = REP[o].th ? CALLER_THREAD : CALLER_MAIN; bool obs = observer; main_obs = REP[o].th && obs; if (REP[o].th) observer = false; one(*find(REP[o].n, REP[o].f)); observer = obs; main_obs = false; caller = CALLER_MAIN; ctx += string(" ") + REP[o].n; return; }
    if (o == S_DISABLE) { IN(0, DLB_Disable()); disabled = true; ctx += " Disable"; } else if (o == S_ENABLE) { IN(0, DLB_Enable()); disabled = false; ctx += " Enable"; }
    else if (o == S_OBS) { IN(0, DLB_SetObserverRole(true)); observer = true; ctx += " Observer"; } else if (o == S_UNOBS) { IN(0, DLB_SetObserverRole(false)); observer = false; ctx += " NoObserver"; resync(); }
    else { IN(0, DLB_Finalize()); inited = ready = false; mon = nullptr; ctx += " Finalize"; }
}
/* ---- calls of several threads that overlap: each one blocks in the MPI library until the schedule lets it go on */
extern "C" { int vn_pthread_barrier_init(pthread_barrier_t *, const pthread_barrierattr_t *, unsigned); int vn_pthread_barrier_wait(pthread_barrier_t *); int vn_pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *); pthread_t vn_pthread_self(void); }
enum { MAXTH = 3, MAXCALL = 2 };
static struct { int n, nc; const vf_call *call[MAXTH][MAXCALL]; int order[32], no; bool update; } V; static pthread_barrier_t go[MAXTH], done[MAXTH]; static int in_lib[MAXTH]; static int pos_[MAXTH]; static int64_t since[MAXTH], vmpi; static long vcalls; static bool vover;
static void *worker(void *arg) {
    int t = (int)(long)arg; cpu_set_t m = to_set(1UL << t); vn_pthread_setaffinity_np(vn_pthread_self(), sizeof m, &m);
    for (int c = 0; c < V.nc; ++c) { vn_pthread_barrier_wait(&go[t]); hook_of_cur = t; invoke(*V.call[t][c]); vn_pthread_barrier_wait(&done[t]); } return nullptr;
}
static void gate() { int t = hook_of_cur; vn_pthread_barrier_wait(&done[t]); vn_pthread_barrier_wait(&go[t]); }
static void *ctl(void *) {
    int half[MAXTH] = {};
    for (int k = 0; k < V.no; ++k) {
        int t = V.order[k]; bool into = half[t] % 2 == 0; const vf_call *c = V.call[t][half[t] / 2]; ++half[t]; G.now += 3; if (!into) { vmpi += G.now - since[t]; ++vcalls; }
        size_t ns = seen.size(); hook_of_cur = t; vn_pthread_barrier_wait(&go[t]); vn_pthread_barrier_wait(&done[t]); in_lib[t] = into; if (into) since[t] = G.now; pos_[t] = half[t] / 2;
        string at = fmt("step %d", k); if (seen.size() != ns + into || (into && seen.back().name != c->name)) { bad("calls", "%s, %s: wrong calls to the MPI library", ctx.c_str(), at.c_str()); return nullptr; }
        if (cfg.lewi) for (int u = 0; u < V.n; ++u) { string n = in_lib[u] ? V.call[u][pos_[u]]->name + 4 : ""; bool l = in_lib[u] && blocking(n) == YES && (cfg.set == 3 || (cfg.set == 2 && collective(n) == YES) || (cfg.set == 1 && n == "Barrier")); if (!shmem_cpuinfo__is_guest(pid0, u) != l) { bad("lewi", "%s, %s: the CPU of thread %d is %s", ctx.c_str(), at.c_str(), u, l ? "not lent" : "lent"); return nullptr; } }
        if (cfg.talp && (V.update || k == V.no - 1)) { DLB_MonitoringRegionsUpdate(); int64_t now = vmpi; for (int u = 0; u < V.n; ++u) if (in_lib[u]) now += G.now - since[u]; if (mon->num_mpi_calls != 1 + vcalls || mon->mpi_time != now) { bad("talp", "%s, %s: %ld calls, MPI time %ld; should be %ld, %ld", ctx.c_str(), at.c_str(), (long)mon->num_mpi_calls, (long)mon->mpi_time, 1 + vcalls, (long)now); return nullptr; } }
    }
    vover = true; return nullptr;
}
static void overlap() {
    string d; for (int t = 0; t < V.n; ++t) for (int c = 0; c < V.nc; ++c) d += fmt("%s%s", V.call[t][c]->name + 4, V.call[t][c]->fortran ? "_ " : " "); for (int i = 0; i < V.no; ++i) d += fmt("%d", V.order[i]); if (V.update) d += "u";
    if (!mc::begin_case(d)) return; boot(cfg); G.proc[0].affinity[0] = (1UL << (V.n + 1)) - 1; if (V.n == 3) G.proc[0].affinity[0] = 15; start(I_MPI); ctx += ": " + d; seen.clear(); vmpi = vcalls = 0; vover = false; memset(in_lib, 0, sizeof in_lib); memset(pos_, 0, sizeof pos_); watching = true;
    if (!mc::is_bad()) { for (int t = 0; t < V.n; ++t) { vn_pthread_barrier_init(&go[t], nullptr, 2); vn_pthread_barrier_init(&done[t], nullptr, 2); } for (int t = 0; t < V.n; ++t) vn_thread_create_in(0, worker, (void *)(long)t); vn_thread_create_in(0, ctl, nullptr); vn_run_helpers(-1); if (!mc::is_bad() && !vover) bad("crash", "%s: the calls did not end: %s", ctx.c_str(), vn_lastmsg); }
    watching = false; mc::outcome("overlapped calls"); mc::eval(true); mc::end_case();
}
static void orders(int k, int *half) { bool any = false; for (int t = 0; t < V.n; ++t) if (half[t] < 2 * V.nc) { any = true; ++half[t]; V.order[k] = t; orders(k + 1, half); --half[t]; } if (!any) { V.no = k; overlap(); } }
void mc_register() {
    int nc = sizeof CFG / sizeof *CFG;
    for (int k = 0; k < nc; ++k) for (int ph = 0; ph < NPHASE; ++ph) { if (ph == NO_DLB && !CFG[k].drom) continue; mc::job(fmt("call.%d.%d", k, ph), [=] {
        for (int how = 0; how < 5; ++how) { if (how != I_MPI && ph == NO_DLB) continue; if (how > 1 && ph != NORMAL && ph != AFTER_FINALIZE && mc::level == 0) continue; int i = 0;
            for (vf_call *c = vf_calls; c->name; ++c, ++i) { if (life(*c)) continue;
                if (!mc::begin_case(fmt("%s %d after %d/%d", c->name, c->fortran, how, ph))) continue; setup(CFG[k], ph, how); if (!mc::is_bad()) { one(*c, i % 3 == 0 ? 0 : i % 3 == 1 ? 0x1234567 : -1); one(*c); } mc::eval(c->fortran); mc::end_case(); } }
    }, ph == 0 ? 3 : 2); }
    for (int k = 0; k < nc; ++k) mc::job(fmt("seq.%d", k), [=] {
        int len = mc::level + 3, o[8] = {}; for (;;) {
            string d; bool ok = true; for (int i = 0; i < len; ++i) { d += (char)('a' + o[i]); if (o[i] == S_END && i + 1 == len) ok = false; if (i && o[i - 1] >= NREP && o[i] >= NREP && o[i] == o[i - 1]) ok = false; }
            if (ok && mc::begin_case(d)) { setup(CFG[k], NORMAL, I_MPI); T2 = vn_thread_extra(0); for (int i = 0; i < len && !mc::is_bad(); ++i) step(o[i]); mc::eval(true); mc::end_case(); }
            int i = len - 1; while (i >= 0 && ++o[i] == NSEQ) o[i--] = 0; if (i < 0) break;
        }
    }, 3);
    static const struct { const char *n; int f; } OV[] = {{"Send", 0}, {"Barrier", 0}, {"Isend", 0}, {"Allreduce", 1}, {"Comm_size", 0}, {"Ibcast", 1}};
    for (int k : {1, 3, 4, 5, 6, 7, 9, 10}) for (int n = 2; n <= 3; ++n) mc::job(fmt("overlap.%d.%d", k, n), [=] {
        cfg = CFG[k]; int no = n == 2 ? mc::level ? 6 : 4 : 6; V.n = n; V.nc = n == 2 || mc::level > 1 ? 2 : 1; if (V.nc == 2 && n == 3) no = 2; int slots = V.n * V.nc, tot = 1; for (int i = 0; i < slots; ++i) tot *= no;
        for (int u = 0; u < (cfg.talp ? 2 : 1); ++u) for (int x = 0; x < tot; ++x) { int y = x; V.update = u; for (int t = 0; t < V.n; ++t) for (int c = 0; c < V.nc; ++c) { V.call[t][c] = find(OV[y % no].n, OV[y % no].f); y /= no; } int half[MAXTH] = {}; Cfg keep = CFG[k]; cfg = keep; orders(0, half); }
    }, 4);
    for (int k = 0; k < nc; ++k) mc::job(fmt("life.%d", k), [=] {
        /* every spelling of the first and the last call, with and without calls of DLB around */
        for (vf_call *a = vf_calls; a->name; ++a) for (vf_call *z = vf_calls; z->name; ++z) { if (!life(*a) || !life(*z) || !strcmp(a->name, "MPI_Finalize") || strcmp(z->name, "MPI_Finalize")) continue;
            for (int v = 0; v < 16; ++v) for (int fail = 0; fail < (CFG[k].drom ? 2 : 1); ++fail) {
                if (!mc::begin_case(fmt("%ld %ld %d %d", a - vf_calls, z - vf_calls, v, fail))) continue; boot(CFG[k], fail); ret = v & 1 ? 77 : 0; bool user = v & 2, pre = v & 4, mid = v & 8; string id = fmt("%s%s .. %s%s %d.%d %s", a->name, a->fortran ? " (Fortran)" : "", z->name, z->fortran ? " (Fortran)" : "", v, fail, ctx.c_str()); int ierr = -5, req = 2, prov = 0, argc = 0; char *av[] = {nullptr}, **argv = av; long A[4] = {}; bool thr = !strcmp(a->name, "MPI_Init_thread");
                if (user) { cpu_set_t m = to_set(3); int rc = IN(0, DLB_Init(0, &m, nullptr)); if (rc && !fail) bad("setup", "DLB_Init: %s", errname(rc)); }
                if (a->fortran) { if (thr) A[0] = (long)&req, A[1] = (long)&prov, A[2] = (long)&ierr; else A[0] = (long)&ierr; } else { A[0] = (long)&argc; A[1] = (long)&argv; if (thr) A[2] = 3, A[3] = (long)&prov; }
                seen.clear(); long r = in_proc(0, [&]() -> long { return ((long (*)(long, long, long, long))a->fn)(A[0], A[1], A[2], A[3]); }); int na = count_params(a->params);
                if (!mc::is_bad()) { if (seen.size() != 1 || seen[0].name != a->name || seen[0].fortran != a->fortran) bad("life", "%s: wrong calls to the MPI library", id.c_str()); else if (!a->fortran && (int)r) bad("result", "%s: the first call returns %d", id.c_str(), (int)r); else for (int i = 0; i < na; ++i) if ((int)seen[0].a[i] != (int)A[i]) bad("arguments", "%s: argument %d of the first call is changed", id.c_str(), i); }
                ready = true; inited = !fail; if (cfg.talp && inited && !mc::is_bad()) { mon = (dlb_monitor_t *)in_proc(0, []() -> long { return (long)DLB_MonitoringRegionGetGlobal(); }); resync(); } callbacks(); if (mid && !mc::is_bad()) { int64_t keep = ret; one(*find("Allreduce", a->fortran)); ret = keep; } if (cfg.drom && !fail) callbacks();
                if (pre && !mc::is_bad()) { mon = nullptr; int rc = IN(0, DLB_Finalize()); if (rc != (fail ? DLB_NOUPDT : DLB_SUCCESS)) bad("life", "%s: DLB_Finalize returns %s", id.c_str(), errname(rc)); }
                mon = nullptr; A[0] = (long)&ierr; seen.clear(); ret = v & 1 ? 77 : 0; if (!mc::is_bad()) r = in_proc(0, [&]() -> long { return ((long (*)(long))z->fn)(A[0]); });
                if (!mc::is_bad()) { if (seen.size() != 1 || seen[0].name != z->name || seen[0].fortran != z->fortran) bad("life", "%s: wrong calls to the MPI library", id.c_str()); else if (!z->fortran && (int)r != ret) bad("result", "%s: MPI_Finalize returns %d", id.c_str(), (int)r); else if (z->fortran && seen[0].a[0] != A[0]) bad("arguments", "%s: the argument of MPI_Finalize is changed", id.c_str()); }
                if (user && !pre && !mc::is_bad()) { int rc = IN(0, DLB_Finalize()); if (rc != (fail ? DLB_NOUPDT : DLB_SUCCESS)) bad("life", "%s: DLB_Finalize returns %s", id.c_str(), errname(rc)); }
                if (!mc::is_bad() && cfg.drom) { int rc = fail ? IN(1, DLB_Finalize()) : IN(1, DLB_DROM_Detach()); if (rc) bad("life", "%s: the other process cannot finish: %s", id.c_str(), errname(rc)); }
                if (!mc::is_bad() && vn_shm_count()) bad("life", "%s: %d shared memories are left", id.c_str(), vn_shm_count());
                mc::outcome("first and last call"); mc::eval(true); mc::end_case();
            } }
    }, 1);
}
