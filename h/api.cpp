/* Every function of the public API, with every kind of argument, from every state of a process: it returns a documented code,
 * it is refused in the documented way when its module is not running, and a refused call changes nothing. */
#include "hn.h"
#include <limits.h>
using mc::bad; using mc::fmt;
struct Cfg { const char *args; bool count, lewi, drom, talp, ext, barrier, async, peer; };
static Cfg C;
enum { ME = 0, PEER = 1, PID = 1001, PPID = 1002, NOPID = 77 };
static struct User { dlb_barrier_t *bar; bool init, on, pre, peer, cb, attD, attT, attS, obs; unsigned char opened; } U;
static std::string log_, out_;
static void cb_n(int n, void *) { log_ += fmt("n%d ", n); }
static void cb_set(const cpu_set_t *m, void *a) { log_ += fmt("%ld%s ", (long)a, mstr(from_set(m)).c_str()); }
static void cb_cpu(int c, void *a) { log_ += fmt("%ld:%d ", (long)a, c); }
enum { L = 1, NI = 2, DR = 4, TA = 8, BA = 16, BLOCK = 32, SH = 64, EFFECT = 128, LT = 256, OWN = 512 /* a failed one may leave the options set: compare the calls of the other process, and DLB_Init */ };
struct Call { int slot; std::string name; const char *doc; int fl; std::function<long()> f; };
static std::vector<Call> calls;
static char code_char(long e) { if (e > 2) return 'N'; if (e < -17) return '!'; return "laoMRCectPDpsdin?STU"[e + 17]; }
static uint64_t world() { uint64_t h[2]; vn_hash(h); return h[0] ^ h[1] * 31; }
static bool shm_on() { return U.attD || U.attT || U.attS || (U.init && (C.drom || C.talp || (C.lewi && !C.count))); }
static void settle() { if (C.async && !mc::is_bad()) vn_run_helpers(-1); }
static long invoke(const Call &c, int *ex) { log_.clear(); out_.clear(); long r = in_proc(c.slot, c.f, ex); if (!*ex || *ex == VN_DEADLOCK) settle(); return r; }
static std::string result(long r, int ex) { return ex ? exc_name[ex] : fmt("%s out[%s] callbacks[%s]", errname(r), out_.c_str(), log_.c_str()); }
/* what all the calls do from here, each one from this state */
static std::map<uint64_t, std::vector<size_t>> known_;
static std::vector<std::string> probes();
static const std::vector<size_t> &prints() {
    uint64_t h = world(); auto it = known_.find(h); if (it != known_.end()) return it->second;
    std::vector<size_t> v; for (auto &s : probes()) v.push_back(std::hash<std::string>()(s)); return known_[h] = v;
}
static std::vector<std::string> probes() {
    std::vector<std::string> v; struct vn_snap s; vn_save(&s, 0); User u = U;
    for (auto &c : calls) { int ex = 0; long r = invoke(c, &ex); v.push_back(result(r, ex)); vn_restore(&s); U = u; }
    vn_snap_free(&s); return v;
}
static void go(const Call &c) {
    struct vn_snap before; vn_save(&before, 0); User u = U; uint64_t h = world(); int ex = 0;
    long r = invoke(c, &ex);
    if (mc::is_bad()) { vn_snap_free(&before); return; }
    std::string what = fmt("%s returns %s", c.name.c_str(), ex ? exc_name[ex] : errname(r));
    if (ex == VN_DEADLOCK && (c.fl & BLOCK) && U.peer) { vn_restore(&before); U = u; mc::outcome("a call waits for the other process"); vn_snap_free(&before); return; }
    if (ex) { bad(("crash:" + c.name).c_str(), "%s: %s (%s)", c.name.c_str(), exc_name[ex], vn_exc_msg); vn_snap_free(&before); return; }
    if (c.slot == ME) {
        char ch = code_char(r);
        if (*c.doc && !strchr(c.doc, ch)) bad(("code:" + c.name + errname(r)).c_str(), "%s, which is not one of its codes", what.c_str());
        const char *want = nullptr;
        if (c.fl & L) want = !U.init ? "n" : !C.lewi ? "l" : !U.on ? "d" : nullptr;
        else if (c.fl & LT) want = !U.init ? "nld" : !C.lewi ? "l" : !U.on ? "d" : nullptr;
        else if (c.fl & NI) want = !U.init ? "n" : nullptr;
        else if (c.fl & DR) want = !U.init ? "n" : !C.drom ? "C" : nullptr;
        else if (c.fl & TA) want = !U.init || !C.talp ? "a" : nullptr;
        else if (c.fl & BA) want = !U.init || !C.barrier ? "C" : nullptr;
        else if (c.fl & SH) want = !shm_on() ? "s" : nullptr;
        if (want && !strchr(want, ch)) bad(("gate:" + c.name).c_str(), "%s; %s, LeWI %s, DROM %s, TALP %s, barriers %s", what.c_str(), U.init ? "after DLB_Init" : "DLB is not initialized", !C.lewi ? "not configured" : U.on ? "enabled" : "disabled", C.drom ? "on" : "off", C.talp ? "on" : "off", C.barrier ? "on" : "off");
        if (!want && (c.fl & (L | LT)) && strchr("nld", ch)) bad(("gate:" + c.name).c_str(), "%s, and DLB is initialized and enabled", what.c_str());
        mc::outcome(fmt("%.*s: %s", (int)c.name.find('('), c.name.c_str(), r > 2 && !(c.fl & BA) ? "number" : errname(r)));
    }
    if (!mc::is_bad() && !(c.fl & EFFECT) && (r < 0 ? r != -9 : r == 2 && !(c.fl & BA))) {
        if (!log_.empty()) bad(("effect:" + c.name).c_str(), "%s, and it runs the callbacks %s", what.c_str(), log_.c_str());
        else if (world() != h) {
            struct vn_snap after; vn_save(&after, 0); User ua = U; std::vector<std::string> a, b; auto pa = prints(); vn_restore(&before); U = u; auto pb = prints(); if (pa != pb) b = probes(); vn_restore(&after); U = ua; if (pa != pb) a = probes();
            for (size_t i = 0; i < a.size() && !mc::is_bad(); ++i) if (a[i] != b[i] && (!(c.fl & OWN) || calls[i].slot == PEER || calls[i].name == "Init")) bad(("effect:" + c.name).c_str(), "%s, and it changes something: %s would return %s, and after it, it returns %s", what.c_str(), calls[i].name.c_str(), b[i].c_str(), a[i].c_str());
            vn_snap_free(&after);
        }
    }
    vn_snap_free(&before);
}
static dlb_monitor_t *reg[2];
static const int mons[] = {0, 1, 2};
static long outmask(long r, const cpu_set_t *m) { if (r >= 0 && r != 2) out_ += mstr(from_set(m)); return r; }
static void make(Cfg c) {
    calls.clear();
    auto A = [&](const std::string &n, const char *doc, int fl, std::function<long()> f) { calls.push_back({ME, n, doc, fl, f}); };
    auto B = [&](const std::string &n, std::function<long()> f) { calls.push_back({PEER, "P1." + n, "", 0, f}); };
    static cpu_set_t none = to_set(0), own = to_set(3), part = to_set(1), oth = to_set(12), mix = to_set(6), all = to_set(15), out = to_set(48), bound = to_set(24);
    struct M { const char *n; const cpu_set_t *m; }; static const M ms[] = {{"none", &none}, {"own", &own}, {"part", &part}, {"other", &oth}, {"mixed", &mix}, {"all", &all}, {"nonexistent", &out}, {"beyond", &bound}};
    static const int cpus[] = {0, 1, 2, 3, 4, -1, INT_MAX, INT_MIN, CPU_SETSIZE}, ns[] = {0, 1, 3, -1, INT_MAX, INT_MIN};
    A("Init", "SiPMC", OWN, [c]{ mu_testing_set_sys(4, 4, 1); cpu_set_t m = to_set(3); std::string a = std::string("--quiet ") + c.args; long r = c.count ? DLB_Init(2, nullptr, a.c_str()) : DLB_Init(0, &m, a.c_str()); if (!r) U.init = U.on = true, U.cb = U.obs = false, U.opened = 0, reg[0] = reg[1] = nullptr; return r; });
    A("Init(incompatible)", "iC", OWN, []{ mu_testing_set_sys(4, 4, 1); return (long)DLB_Init(2, nullptr, "--quiet --lewi --lewi-affinity=none --drom"); });
    A("Init(overlap)", c.peer || 1 ? "iPSMC" : "", OWN, []{ mu_testing_set_sys(4, 4, 1); cpu_set_t m = to_set(6); if (!U.peer || !(C.drom || (C.lewi && !C.count))) return (long)DLB_ERR_INIT; long r = DLB_Init(0, &m, ("--quiet " + std::string(C.args)).c_str()); if (!r) U.init = U.on = true, U.cb = U.obs = false; return r; });
    A("Finalize", "SU", 0, []{ long r = DLB_Finalize(); if (!r) U.init = U.on = false, U.bar = nullptr; return r; });
    A("Enable", "SnU", NI, []{ long r = DLB_Enable(); if (r == 0) U.on = true; return r; });
    A("Disable", "SnU", NI, []{ long r = DLB_Disable(); if (r == 0) U.on = false; return r; });
    for (int n : ns) A(fmt("SetMaxParallelism(%d)", n), "SndloUC", L, [n]{ return (long)DLB_SetMaxParallelism(n); });
    A("UnsetMaxParallelism()", "SndloUC", L, []{ return (long)DLB_UnsetMaxParallelism(); });
    A("CallbackSet(all)", "", 0, []{ DLB_CallbackSet(dlb_callback_set_num_threads, (dlb_callback_t)cb_n, nullptr); for (int w : {2, 3, 4, 5}) DLB_CallbackSet((dlb_callbacks_t)w, (dlb_callback_t)cb_set, (void*)(long)w); for (int w : {6, 7}) DLB_CallbackSet((dlb_callbacks_t)w, (dlb_callback_t)cb_cpu, (void*)(long)w); U.cb = true; return 0L; });
    for (int w : {0, 1, 3, 6, 10, -1, INT_MAX}) { A(fmt("CallbackSet(%d)", w), w >= 1 && w <= 9 ? "S" : "c", 0, [w]{ return (long)DLB_CallbackSet((dlb_callbacks_t)w, nullptr, nullptr); });
        A(fmt("CallbackGet(%d)", w), w >= 1 && w <= 9 ? "S" : "c", 0, [w]{ dlb_callback_t f = (dlb_callback_t)7; void *a = (void*)7; long r = DLB_CallbackGet((dlb_callbacks_t)w, &f, &a); out_ += fmt("%d %ld", f != nullptr, (long)a); return r; }); }
    A("Lend()", "SnldoCUP", L, []{ return (long)DLB_Lend(); }); A("Reclaim()", "STUnldoCP", L | (c.drom ? EFFECT : 0), []{ return (long)DLB_Reclaim(); }); A("Borrow()", "SUnldoC", L, []{ return (long)DLB_Borrow(); }); A("Return()", "SUndPCol", L, []{ return (long)DLB_Return(); });
#define PERF(list, v, n, str, F, doc, fl) for (auto v : list) A(fmt(#F "(%s)", str), doc, L | (fl), [=]{ return (long)DLB_##F(n); });
#define PER(list, v, n, str, F, doc) PERF(list, v, n, str, F, doc, 0)
#define LC "ndloCP"
    PER(cpus, x, x, std::to_string(x).c_str(), LendCpu, "SUP" LC) PER(cpus, x, x, std::to_string(x).c_str(), ReclaimCpu, "STUP" LC) PER(cpus, x, x, std::to_string(x).c_str(), AcquireCpu, "STUPR" LC) PER(cpus, x, x, std::to_string(x).c_str(), BorrowCpu, "SUP" LC) PER(cpus, x, x, std::to_string(x).c_str(), ReturnCpu, "SUP" LC)
    PER(ns, x, x, std::to_string(x).c_str(), LendCpus, "SU" LC) PER(ns, x, x, std::to_string(x).c_str(), ReclaimCpus, "STU" LC) PER(ns, x, x, std::to_string(x).c_str(), AcquireCpus, "STUR?" LC) PER(ns, x, x, std::to_string(x).c_str(), BorrowCpus, "SU" LC)
    PER(ms, x, x.m, x.n, LendCpuMask, "SUP" LC) PERF(ms, x, x.m, x.n, ReclaimCpuMask, "STUP" LC, c.drom || x.m == &mix || x.m == &all ? EFFECT : 0) PER(ms, x, x.m, x.n, AcquireCpuMask, "STUPR" LC) PER(ms, x, x.m, x.n, BorrowCpuMask, "SUP" LC) PER(ms, x, x.m, x.n, ReturnCpuMask, "SUP" LC)
    for (int n : {0, 1, -1, INT_MAX}) for (auto x : ms) if (n == 1 || x.m == &none || x.m == &mix) { A(fmt("AcquireCpusInMask(%d,%s)", n, x.n), "STUPR" LC, L, [=]{ return (long)DLB_AcquireCpusInMask(n, x.m); }); A(fmt("BorrowCpusInMask(%d,%s)", n, x.n), "SUP" LC, L, [=]{ return (long)DLB_BorrowCpusInMask(n, x.m); }); }
    for (int x : cpus) A(fmt("CheckCpuAvailability(%d)", x), "STUPdlnoC", LT, [x]{ return (long)DLB_CheckCpuAvailability(x); });
    A("PollDROM(ncpus,mask)", "SUCn", DR, []{ int n = -5; cpu_set_t m = to_set(0); long r = DLB_PollDROM(&n, &m); if (!r) { out_ += fmt("%d ", n); outmask(r, &m); } return r; });
    A("PollDROM(NULL,NULL)", "SUCn", DR, []{ return (long)DLB_PollDROM(nullptr, nullptr); }); A("PollDROM_Update()", "SUCn", DR, []{ return (long)DLB_PollDROM_Update(); });
    /* barriers */
    A("Barrier()", "SUC", BA | BLOCK, []{ return (long)DLB_Barrier(); }); A("BarrierAttach()", "NSTUPMCs", BA, []{ return (long)DLB_BarrierAttach(); }); A("BarrierDetach()", "NSTUPCs", BA | EFFECT, []{ return (long)DLB_BarrierDetach(); });
    A("BarrierNamed(NULL)", "SUC", BA | BLOCK, []{ return (long)DLB_BarrierNamed(nullptr); });
    for (const char *n : {"a", "", "default"}) for (int how : {0, 1, 2}) A(fmt("BarrierNamed%s(%s)", how == 0 ? "" : how == 1 ? "Attach" : "Detach", n), how == 0 ? "SUC" : "NSTUPMCs", BA | (how == 0 ? BLOCK : 0) | EFFECT, [=]{ dlb_barrier_t *b = DLB_BarrierNamedRegister(n, (dlb_barrier_flags_t)0); out_ += b ? "registered" : "none"; if (!b) return U.init && C.barrier ? (long)DLB_NOUPDT : (long)DLB_ERR_NOCOMP; return (long)(how == 0 ? DLB_BarrierNamed(b) : how == 1 ? DLB_BarrierNamedAttach(b) : DLB_BarrierNamedDetach(b)); });
    A("BarrierNamedRegister(kept)", "SUC", BA | EFFECT, []{ dlb_barrier_t *b = DLB_BarrierNamedRegister("kept", (dlb_barrier_flags_t)0); if (b) U.bar = b; return b ? 0L : U.init && C.barrier ? (long)DLB_NOUPDT : (long)DLB_ERR_NOCOMP; });
    for (int how : {0, 1, 2}) A(fmt("BarrierNamed%s(kept)", how == 0 ? "" : how == 1 ? "Attach" : "Detach"), how == 0 ? "SUC" : "NSTUPMCs", BA | (how == 0 ? BLOCK : 0), [=]{ dlb_barrier_t *b = U.bar; if (!b) return U.init && C.barrier ? (long)DLB_NOUPDT : (long)DLB_ERR_NOCOMP; return (long)(how == 0 ? DLB_BarrierNamed(b) : how == 1 ? DLB_BarrierNamedAttach(b) : DLB_BarrierNamedDetach(b)); });
    A("BarrierNamedRegister(NULL)", "S", 0, []{ return (long)DLB_BarrierNamedRegister(nullptr, (dlb_barrier_flags_t)7); });
    /* DROM */
    for (int p : {0, (int)PID, (int)PPID, (int)NOPID, -1}) {
        A(fmt("DROM_GetProcessMask(%d)", p), "STpt", 0, [p]{ cpu_set_t m = to_set(0); return outmask(DLB_DROM_GetProcessMask(p, &m, (dlb_drom_flags_t)0), &m); });
        if (p != PPID && (c.drom || !c.lewi || p == NOPID)) for (auto x : ms) if (x.m != &part && x.m != &all && x.m != &bound) A(fmt("DROM_SetProcessMask(%d,%s)", p, x.n), "SpDtPC", 0, [=]{ return (long)DLB_DROM_SetProcessMask(p, x.m, (dlb_drom_flags_t)0); });
        A(fmt("DROM_PostFinalize(%d)", p), "Ssp", p == PID || p == 0 || p == PPID ? EFFECT | 0 : 0, [p]{ if (p == PID || p == PPID) return (long)DLB_ERR_NOPROC; return (long)DLB_DROM_PostFinalize(p, (dlb_drom_flags_t)0); });
        A(fmt("DROM_RecoverStolenCpus(%d)", p), "SUsp", 0, [p]{ return (long)DLB_DROM_RecoverStolenCpus(p); });
        A(fmt("TALP_GetTimes(%d)", p), "Spsa", 0, [p]{ double a = -1, b = -1; long r = DLB_TALP_GetTimes(p, &a, &b); if (!r) out_ += fmt("%g %g", a, b); return r; });
        A(fmt("Stats_GetLoadAvg(%d)", p), "Sspe", 0, [p]{ double l[3]; long r = DLB_Stats_GetLoadAvg(p, l); return r == -1 || r == 0 ? 0 : r; });
        A(fmt("Stats(%d)", p), "", 0, [p]{ double d; int n; DLB_Stats_GetCpuUsage(p, &d); DLB_Stats_GetCpuAvgUsage(p, &d); DLB_Stats_GetActiveCpus(p, &n); out_ += fmt("%d", n); return 0L; });
    }
    A("DROM_Attach", "S", 0, []{ if (U.attD) return 0L; mu_testing_set_sys(4, 4, 1); long r = DLB_DROM_Attach(); if (!r) U.attD = true; return r; });
    A("DROM_Detach", "Ss", 0, []{ if (!U.attD && (U.attT || U.attS || U.init)) return 0L; long r = DLB_DROM_Detach(); if (!r != U.attD) bad("detach", "DLB_DROM_Detach returns %s, the process was %s", errname(r), U.attD ? "attached" : "not attached"); U.attD = false; return r; });
    A("TALP_Attach", "S", 0, []{ if (U.attT) return 0L; mu_testing_set_sys(4, 4, 1); long r = DLB_TALP_Attach(); if (!r) U.attT = true; return r; });
    A("TALP_Detach", "Ss", 0, []{ if (!U.attT && (U.attD || U.attS || U.init)) return 0L; long r = DLB_TALP_Detach(); if (!r != U.attT) bad("detach", "DLB_TALP_Detach returns %s, the process was %s", errname(r), U.attT ? "attached" : "not attached"); U.attT = false; return r; });
    A("Stats_Init", "S", 0, []{ if (U.attS) return 0L; mu_testing_set_sys(4, 4, 1); long r = DLB_Stats_Init(); if (!r) U.attS = true; return r; });
    A("Stats_Finalize", "S", 0, []{ if (!U.attS) return 0L; long r = DLB_Stats_Finalize(); U.attS = false; return r; });
    for (int n : {0, 1, 8, -1}) {
        for (int w : {0, 1, 2}) A(fmt("%s_GetPidList(%d)", w == 0 ? "DROM" : w == 1 ? "TALP" : "Stats", n), w == 2 ? "Ss" : "Ss", w == 2 ? 0 : SH, [=]{ int l[10]; for (int &x : l) x = -42; int k = -7; long r = w == 0 ? DLB_DROM_GetPidList(l, &k, n) : w == 1 ? DLB_TALP_GetPidList(l, &k, n) : DLB_Stats_GetPidList(l, &k, n);
            for (int i = n < 0 ? 0 : n; i < 10; ++i) if (l[i] != -42) bad("overrun", "GetPidList writes element %d of a list of %d", i, n); if (!r && k != -7) { if (k < 0 || k > (n < 0 ? 0 : n)) bad("overrun", "GetPidList says that it wrote %d elements to a list of %d", k, n); for (int i = 0; i < k && i < 10; ++i) out_ += fmt("%d ", l[i]); } return r; });
        A(fmt("Stats_Lists(%d)", n), "", 0, [n]{ double d[10]; int l[10], k = 0; for (int w = 0; w < 3; ++w) { for (double &x : d) x = -42; for (int &x : l) x = -42; k = 0; w == 0 ? DLB_Stats_GetCpuUsageList(d, &k, n) : w == 1 ? DLB_Stats_GetCpuAvgUsageList(d, &k, n) : DLB_Stats_GetActiveCpusList(l, &k, n);
            for (int i = n < 0 ? 0 : n; i < 10; ++i) if (d[i] != -42 || l[i] != -42) bad("overrun", "a list of Stats writes element %d of %d", i, n); if (k < 0 || k > (n < 0 ? 0 : n)) bad("overrun", "a list of Stats has %d elements of %d", k, n); out_ += fmt("%d ", k); } return 0L; });
        for (const char *name : {(const char *)nullptr, "Global", "r1", "nothing"}) A(fmt("TALP_GetNodeTimes(%s,%d)", name ? name : "NULL", n), "Ss", 0, [=]{ dlb_node_times_t t[10]; memset(t, 0x55, sizeof t); int k = -7; long r = DLB_TALP_GetNodeTimes(name, t, &k, n); for (int i = n < 0 ? 0 : n; i < 10; ++i) if (t[i].pid != 0x55555555) bad("overrun", "GetNodeTimes writes element %d of %d", i, n); if (!r) { if (k < 0 || k > (n < 0 ? 0 : n)) bad("overrun", "GetNodeTimes has %d elements of %d", k, n); for (int i = 0; i < k && i < 10; ++i) out_ += fmt("%d ", t[i].pid); } return r; });
    }
    A("Stats_Node()", "", 0, []{ double d; DLB_Stats_GetNodeUsage(&d); DLB_Stats_GetNodeAvgUsage(&d); int n = 0; DLB_Stats_GetNumCpus(&n); out_ += fmt("%d", n); float f; DLB_Stats_GetCpuStateIdle(0, &f); return 0L; });
    for (const char *name : {(const char *)nullptr, "r1", "nothing"}) A(fmt("TALP_QueryPOPNodeMetrics(%s)", name ? name : "NULL"), "Sse", 0, [=]{ dlb_node_metrics_t m; memset(&m, 0, sizeof m); long r = DLB_TALP_QueryPOPNodeMetrics(name, &m); if (!r) out_ += m.name; return r; });
    A("GetNumCpus()", "S", 0, []{ int a = 0, b = 0; long r = DLB_DROM_GetNumCpus(&a) + DLB_TALP_GetNumCPUs(&b); out_ += fmt("%d %d", a, b); return r; });
    /* TALP regions: an own one, the global one, the last one open */
    auto handle = [](int k) -> dlb_monitor_t * { return k == 0 ? (dlb_monitor_t *)DLB_GLOBAL_REGION : k == 1 ? (dlb_monitor_t *)DLB_LAST_OPEN_REGION : DLB_MonitoringRegionRegister("r1"); };
    static const char *hn[] = {"global", "last", "r1"};
    for (int k : mons) {
        auto need = [=](std::function<long(dlb_monitor_t *)> f) { return [=]{ dlb_monitor_t *h = handle(k); if (k == 2 && !h) { if (U.init && C.talp) bad("region-register", "DLB_MonitoringRegionRegister returns NULL"); return (long)DLB_ERR_NOTALP; } return f(h); }; };
        if (k != 1) A(fmt("RegionReset(%s)", hn[k]), "SaP", TA | (k == 2 ? EFFECT : 0), need([](dlb_monitor_t *h) { return (long)DLB_MonitoringRegionReset(h); }));
        if (k != 1) A(fmt("RegionStart(%s)", hn[k]), "SaPU", TA | (k == 2 ? EFFECT : 0), need([](dlb_monitor_t *h) { return (long)DLB_MonitoringRegionStart(h); }));
        A(fmt("RegionStop(%s)", hn[k]), "SaPUe", TA | (k == 2 ? EFFECT : 0), need([](dlb_monitor_t *h) { return (long)DLB_MonitoringRegionStop(h); }));
        if (k != 1) A(fmt("RegionReport(%s)", hn[k]), "Sa", TA | (k == 2 ? EFFECT : 0), need([](dlb_monitor_t *h) { return (long)DLB_MonitoringRegionReport(h); }));
        if (k != 1) A(fmt("CollectPOPMetrics(%s)", hn[k]), "SaCP", TA | (k == 2 ? EFFECT : 0), need([](dlb_monitor_t *h) { dlb_pop_metrics_t p; return (long)DLB_TALP_CollectPOPMetrics(h, &p); }));
        if (k != 1) A(fmt("CollectPOPNodeMetrics(%s)", hn[k]), "SaCe", TA | BLOCK | EFFECT, need([](dlb_monitor_t *h) { dlb_node_metrics_t p; return (long)DLB_TALP_CollectPOPNodeMetrics(h, &p); }));
    }
    A("RegionsUpdate()", "SaP", TA, []{ return (long)DLB_MonitoringRegionsUpdate(); });
    A("GetGlobal()", "", 0, []{ auto m = DLB_MonitoringRegionGetGlobal(); if (!!m != (U.init && C.talp)) bad("gate:GetGlobal", "DLB_MonitoringRegionGetGlobal returns %s, TALP is %s", m ? "a region" : "NULL", C.talp ? "on" : "off"); if (m) out_ += fmt("%s %d %d", m->name, m->num_measurements, m->num_resets); return 0L; });
    for (const char *n : {"", "Global", "GLOBAL", "all"}) A(fmt("RegionRegister(%s)", n), "", EFFECT, [n]{ auto m = DLB_MonitoringRegionRegister(n); out_ += m ? m->name : "NULL"; return 0L; });
    /* options */
    for (const char *n : {"--lewi", "--verbose", "--lewi-max-parallelism", "--nothing", "", "LB_DEBUG_OPTS", "--quiet"}) { A(fmt("GetVariable(%s)", n), "Se", 0, [n]{ char b[256] = ""; long r = DLB_GetVariable(n, b); if (!r) out_ += b; return r; }); A(fmt("SetVariable(%s,x)", n), "SPe", 0, [n]{ return (long)DLB_SetVariable(n, "x"); }); A(fmt("SetVariable(%s,yes)", n), "SPe", 0, [n]{ return (long)DLB_SetVariable(n, "yes"); }); }
    A("PrintVariables(1)", "S", 0, []{ return (long)DLB_PrintVariables(1); });
    for (int n : {0, -1, 1, 1000}) A(fmt("PrintShmem(%d)", n), "S", 0, [n]{ return (long)DLB_PrintShmem(n, (dlb_printshmem_flags_t)(n == 1 ? DLB_COLOR_ALWAYS : 0)); });
    A("Strerror", "", 0, []{ for (int e : {-18, -17, -1, 0, 1, 2, 3, INT_MIN, INT_MAX}) { const char *s = DLB_Strerror(e); out_ += s ? s : "NULL"; out_ += ";"; } return 0L; });
    A("SetObserverRole(1)", "S", 0, []{ U.obs = true; return (long)DLB_SetObserverRole(true); }); A("SetObserverRole(0)", "S", 0, []{ U.obs = false; return (long)DLB_SetObserverRole(false); });
    /* the other process */
    if (c.peer) {
        B("Init", [c]{ mu_testing_set_sys(4, 4, 1); cpu_set_t m = to_set(12); std::string a = std::string("--quiet ") + c.args; long r = c.count ? DLB_Init(2, nullptr, a.c_str()) : DLB_Init(0, &m, a.c_str()); if (!r) U.peer = true; return r; });
        B("Finalize", []{ long r = DLB_Finalize(); if (!r) U.peer = false; return r; });
        if (c.lewi) { B("Lend", []{ return (long)DLB_Lend(); }); B("Reclaim", []{ return (long)DLB_Reclaim(); }); B("Borrow", []{ return (long)DLB_Borrow(); }); if (!c.count) B("AcquireCpu(0)", []{ return (long)DLB_AcquireCpu(0); }); B("AcquireCpus(2)", []{ return (long)DLB_AcquireCpus(2); }); }
        if (c.drom) for (int p : {(int)PID, 0}) for (auto x : ms) if (x.m == &part || x.m == &own || x.m == &oth) B(fmt("SetProcessMask(%d,%s)", p, x.n), [=]{ return (long)DLB_DROM_SetProcessMask(p, x.m, (dlb_drom_flags_t)DLB_STEAL_CPUS); });
        if (c.drom) B("PollDROM_Update", []{ return (long)DLB_PollDROM_Update(); });
        B("GetPidList", []{ int l[4], k = 0; long r = DLB_DROM_GetPidList(l, &k, 4); if (!r) for (int i = 0; i < k; ++i) out_ += fmt("%d ", l[i]); return r; });
        B("GetProcessMask", []{ cpu_set_t m = to_set(0); return outmask(DLB_DROM_GetProcessMask(PPID, &m, (dlb_drom_flags_t)0), &m); });
    }
}
static void run1(Cfg c, int depth, const std::vector<const char *> &hist) {
    std::string h = "from"; for (auto x : hist) h += fmt(" %s", x); if (!mc::scenario(h)) return;
    C = c; memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; vn_tick = 0; vn_sysconf_cpus = 4; vn_capture = 1;
    vn_spawn(PID); vn_spawn(PPID); vn_setenv(0, "DLB_ARGS", "--quiet"); topo(0, 4, 4, 1); topo(1, 4, 4, 1); G.proc[0].affinity[0] = 3; G.proc[1].affinity[0] = 12; known_.clear(); make(c);
    if (c.peer) { int ex = 0; for (auto &x : calls) if (x.name == "P1.Init") invoke(x, &ex); if (!U.peer) { bad("peer", "P1 cannot initialize"); return; } }
    for (auto n : hist) for (auto &x : calls) if (x.name == n) { go(x); if (mc::is_bad()) return; }
    std::vector<mc::Op> o; for (auto &x : calls) { const Call *p = &x; o.push_back({x.name, []{ return true; }, [p]{ vn_outlen = 0; go(*p); }}); }
    mc::Limits l; l.depth = depth + mc::level; l.max_states = 3000000; mc::explore_ops(o, nullptr, l);
}
static void run(Cfg c, int depth) {
    run1(c, depth, {}); run1(c, depth, {"Init", "CallbackSet(all)"}); if (depth - 1 + mc::level < 1) ++depth;
    if (c.barrier) { run1(c, depth - 1, {"Init", "BarrierNamedRegister(kept)"}); run1(c, depth - 1, {"Init", "BarrierNamedRegister(kept)", "BarrierNamedDetach(kept)"}); }
    if (c.lewi && c.peer) { run1(c, depth - 1, {"Init", "CallbackSet(all)", "AcquireCpus(1)", c.count ? "LendCpus(1)" : "LendCpu(1)"}); run1(c, depth - 1, {"Init", "CallbackSet(all)", "AcquireCpus(1)", "Disable"}); }
    run1(c, depth - 1, {"Init", "CallbackSet(all)", "Disable"}); run1(c, depth - 1, {"Init", "CallbackSet(all)", "Finalize"}); run1(c, depth - 1, {"Init", "SetObserverRole(1)"}); run1(c, depth - 1, {"Init", "CallbackSet(all)", "Finalize", "Init"}); run1(c, depth - 1, {"TALP_Attach"}); run1(c, depth - 1, {"DROM_Attach"}); run1(c, depth - 1, {"Stats_Init"});
    if (c.talp) run1(c, depth - 1, {"Init", "RegionStart(r1)"});
    if (c.lewi) run1(c, depth - 1, {"Init", "CallbackSet(all)", "Lend()", c.peer ? "P1.Borrow" : "Lend()"}); if (c.lewi && c.peer) run1(c, depth - 1, {"Init", "CallbackSet(all)", "P1.Lend", "Borrow()"}); if (c.lewi && c.peer) run1(c, depth - 1, {"Init", "CallbackSet(all)", "P1.Lend", "Borrow()", "P1.Reclaim"});
    if (c.drom && c.peer) run1(c, depth - 1, {"Init", "CallbackSet(all)", "P1.SetProcessMask(1001,part)"});
}
void mc_register() {
    auto J = [](const char *n, Cfg c, int d) { mc::job(n, [=]{ run(c, d); }, 8); };
    J("none", {"--lewi=no", false, false, false, false, false, true, false, true}, 1);
    J("count.poll", {"--lewi", true, true, false, false, false, true, false, true}, 1); J("count.async", {"--lewi --mode=async", true, true, false, false, false, true, true, true}, 1);
    J("mask.poll", {"--lewi", false, true, false, false, false, true, false, true}, 1); J("mask.async", {"--lewi --mode=async", false, true, false, false, false, true, true, true}, 1);
    J("drom", {"--lewi=no --drom", false, false, true, false, false, true, false, true}, 1); J("talp", {"--lewi=no --talp --talp-summary=none", false, false, false, true, false, true, false, true}, 1);
    J("talp.ext", {"--lewi=no --talp --talp-summary=none --talp-external-profiler", false, false, false, true, true, true, false, true}, 1); J("all", {"--lewi --drom --talp --talp-summary=none --talp-external-profiler", false, true, true, true, true, true, false, true}, 1);
    J("nobarrier", {"--lewi --barrier=no --talp --talp-summary=none", false, true, false, true, false, false, false, true}, 1); J("alone", {"--lewi --drom --talp --talp-summary=none --talp-external-profiler", false, true, true, true, true, true, false, false}, 1);
}
