/* Two handles in one process (DLB_Init_sp) behave as two processes with DLB_Init: the same operations are executed by two processes
 * and by the two handles of another one (with another shared memory key), and every result, mask and callback has to be the same. */
#include "hn.h"
#include <limits.h>
extern "C" {
#include "LB_core/DLB_kernel.h"
#include "LB_core/spd.h"
}
using mc::bad; using mc::fmt;
struct Cfg { const char *args; bool count, lewi, drom, talp, async, two; int cores; bool barrier; };
static Cfg C;
static struct User { dlb_handler_t h[2]; bool init[2]; int spid[2]; unsigned char blocked, nin, shared, last; bool xin; dlb_barrier_t *b[2][3]; dlb_monitor_t *m[2][2]; } U;
enum { SP = 2, XA = 3, XB = 4, PA = 1001, PS = 1003 };
static sync_call_flags_t blocking() { sync_call_flags_t f; memset(&f, 0, sizeof f); f.is_mpi = f.is_blocking = f.is_collective = f.do_lewi = true; return f; }
static int tid[2];
struct World { std::string log, out; int self; };
static World W[2]; static int cur;
static const char *who(int h) { return h ? "P2" : "P1"; }
static void cb(const char *what, int h, const std::string &v) { W[cur].log += fmt("%s.%s(%s) ", who(h), what, v.c_str()); }
static void cb_n(int n, void *a) { cb("num_threads", (long)a & 1, std::to_string(n)); }
template <int K> static void cb_m(const cpu_set_t *m, void *a) { cb(K == 0 ? "process_mask" : K == 1 ? "add_mask" : "enable_set", (long)a & 1, mstr(from_set(m))); }
static void cb_en(int c, void *a) { cb("enable", (long)a & 1, std::to_string(c)); }
static void cb_dis(int c, void *a) { cb("disable", (long)a & 1, std::to_string(c)); }
static std::string result(long r, const World &w) { return fmt("%s out[%s] callbacks[%s]", errname(r), w.out.c_str(), w.log.c_str()); }
static std::string pidname(int p) { for (int i = 0; i < 2; ++i) if (p == PA + i || (U.spid[i] && p == U.spid[i])) return who(i); return std::to_string(p); }
/* the helpers of one world only */
static void settle() { if (C.async && !mc::is_bad()) vn_run_helpers(-1); }
typedef std::function<long(bool sp, int h)> Fn;
static void both(const std::string &name, int h, const Fn &f) {
    long r[2];
    for (cur = 0; cur < 2; ++cur) {
        W[cur].log.clear(); W[cur].out.clear(); int ex = 0; auto g = [&]{ return f(cur == 1, h); };
        r[cur] = h == 2 ? in_proc(cur ? XB : XA, g, &ex) : cur == 0 ? in_proc(h, g, &ex) : C.two ? in_thread(tid[h], g, &ex) : in_proc(SP, g, &ex);
        if (ex) { bad(fmt("crash:%s%s", cur ? "sp:" : "", name.c_str()).c_str(), "%s%s: %s (%s)", cur ? "with handles, " : "", name.c_str(), exc_name[ex], vn_exc_msg); return; }
        settle(); if (mc::is_bad()) return;
    }
    if (r[0] != r[1] || W[0].log != W[1].log || W[0].out != W[1].out) bad(C.count && !C.async && U.shared ? "classic-shared" : ("differs:" + name).c_str(), "%s in two processes: %s; with two handles: %s", name.c_str(), result(r[0], W[0]).c_str(), result(r[1], W[1]).c_str());
    if (h < 2) U.last = U.init[h] ? h : 2;
    mc::outcome(fmt("%.*s: %s", (int)name.find_first_of("(", 0), name.c_str(), errname(r[0])));
}
static std::vector<mc::Op> make() {
    std::vector<mc::Op> o; static cpu_set_t own[2] = {to_set(3), to_set(12)}, all = to_set(15), mix = to_set(6), none = to_set(0);
    auto add = [&](const std::string &n, int h, Fn f, std::function<bool()> g = nullptr) {
        std::string name = fmt("%s.%s", h == 2 ? "X" : who(h), n.c_str()); o.push_back({name, [=]{ return g ? g() : h == 2 || U.init[h]; }, [=]{ vn_outlen = 0; both(name, h, f); }}); };
    for (int h = 0; h < 2; ++h) {
        add("Init", h, [](bool sp, int h) -> long { mu_testing_set_sys(4, C.cores, 1); std::string a = fmt("--quiet --shm-key=%s %s", sp ? "b" : "a", C.args); const cpu_set_t *m = C.count ? nullptr : &own[h]; int n = C.count ? 2 : 0; long r;
            if (sp) { U.h[h] = DLB_Init_sp(n, m, a.c_str()); r = U.h[h] ? 0 : -1; if (U.h[h]) U.spid[h] = ((const subprocess_descriptor_t *)U.h[h])->id; } else { r = DLB_Init(n, m, a.c_str()); r = r ? -1 : 0; }
            void *a1 = (void *)(long)h;
#define CB(w, f) sp ? DLB_CallbackSet_sp(U.h[h], w, (dlb_callback_t)f, a1) : DLB_CallbackSet(w, (dlb_callback_t)f, a1);
            if (!r) { CB(dlb_callback_set_num_threads, cb_n) CB(dlb_callback_set_process_mask, cb_m<0>) CB(dlb_callback_enable_cpu, cb_en) CB(dlb_callback_disable_cpu, cb_dis) if (sp) { U.init[h] = true; if (U.init[1 - h]) U.shared = 1; } }
            return r; }, [h]{ return !U.init[h] && U.nin < 4; });
        add("Finalize", h, [](bool sp, int h) -> long { if (!sp) return DLB_Finalize(); long r = DLB_Finalize_sp(U.h[h]); U.init[h] = false; U.h[h] = nullptr; U.b[0][h] = U.b[1][h] = nullptr; U.m[0][h] = U.m[1][h] = nullptr; ++U.nin; return r; }, [h]{ return U.init[h] && !(U.blocked >> h & 1); });
#define OP(n, call, ...) add(n, h, [=](bool sp, int h) -> long { auto H = U.h[h]; (void)h; return sp ? (long)DLB_##call##_sp(H, ##__VA_ARGS__) : (long)DLB_##call(__VA_ARGS__); });
        OP("Enable()", Enable) OP("Disable()", Disable)
        if (C.lewi) {
            OP("SetMaxParallelism(1)", SetMaxParallelism, 1) OP("SetMaxParallelism(3)", SetMaxParallelism, 3) OP("UnsetMaxParallelism()", UnsetMaxParallelism)
            OP("Lend()", Lend) OP("Reclaim()", Reclaim) OP("Borrow()", Borrow) OP("Return()", Return)
            OP("LendCpus(1)", LendCpus, 1) OP("ReclaimCpus(1)", ReclaimCpus, 1) OP("AcquireCpus(1)", AcquireCpus, 1) OP("AcquireCpus(3)", AcquireCpus, 3) OP("AcquireCpus(0)", AcquireCpus, 0) OP("BorrowCpus(1)", BorrowCpus, 1) OP("BorrowCpus(2)", BorrowCpus, 2)
            if (!C.count) {
                for (int c : {1, 2, 5}) { OP(fmt("LendCpu(%d)", c), LendCpu, c) OP(fmt("ReclaimCpu(%d)", c), ReclaimCpu, c) OP(fmt("AcquireCpu(%d)", c), AcquireCpu, c) OP(fmt("BorrowCpu(%d)", c), BorrowCpu, c) OP(fmt("ReturnCpu(%d)", c), ReturnCpu, c) OP(fmt("CheckCpuAvailability(%d)", c), CheckCpuAvailability, c) }
                static struct { const char *n; cpu_set_t *m; } ms[] = {{"all", &all}, {"mixed", &mix}, {"none", &none}};
                for (auto x : ms) { OP(fmt("LendCpuMask(%s)", x.n), LendCpuMask, x.m) OP(fmt("ReclaimCpuMask(%s)", x.n), ReclaimCpuMask, x.m) OP(fmt("AcquireCpuMask(%s)", x.n), AcquireCpuMask, x.m) OP(fmt("BorrowCpuMask(%s)", x.n), BorrowCpuMask, x.m) OP(fmt("ReturnCpuMask(%s)", x.n), ReturnCpuMask, x.m) OP(fmt("AcquireCpusInMask(1,%s)", x.n), AcquireCpusInMask, 1, x.m) OP(fmt("BorrowCpusInMask(1,%s)", x.n), BorrowCpusInMask, 1, x.m) }
            }
        }
        if (C.drom) {
            add("PollDROM()", h, [](bool sp, int h) -> long { int n = -1; cpu_set_t m = to_set(0); long r = sp ? DLB_PollDROM_sp(U.h[h], &n, &m) : DLB_PollDROM(&n, &m); if (!r) W[cur].out += fmt("%d %s", n, mstr(from_set(&m)).c_str()); return r; });
            OP("PollDROM_Update()", PollDROM_Update)
        }
        if (C.barrier) {
#define CUR if (sp) spd_enter_dlb((subprocess_descriptor_t *)U.h[h]);
            add("BarrierAttach()", h, [](bool sp, int h) -> long { CUR return DLB_BarrierAttach(); }); add("BarrierDetach()", h, [](bool sp, int h) -> long { CUR return DLB_BarrierDetach(); });
            add("BarrierNamedRegister(a)", h, [](bool sp, int h) -> long { CUR U.b[sp][h] = DLB_BarrierNamedRegister("a", (dlb_barrier_flags_t)0); return !U.b[sp][h]; });
            add("BarrierNamedAttach(a)", h, [](bool sp, int h) -> long { CUR return DLB_BarrierNamedAttach(U.b[sp][h]); }, [h]{ return U.init[h] && U.b[0][h] && U.b[1][h]; }); add("BarrierNamedDetach(a)", h, [](bool sp, int h) -> long { CUR return DLB_BarrierNamedDetach(U.b[sp][h]); }, [h]{ return U.init[h] && U.b[0][h] && U.b[1][h]; });
        }
        if (C.talp) {
            auto reg = [h]{ return U.init[h] && U.m[0][h] && U.m[1][h]; };
            auto show = [](const dlb_monitor_t *m) { W[cur].out += m ? fmt("%s mpi %ld calls %ld measurements %d resets %d; ", m->name, (long)m->num_mpi_calls, (long)m->num_mpi_calls, m->num_measurements, m->num_resets) : "NULL "; };
            add("RegionRegister(r)", h, [](bool sp, int h) -> long { CUR U.m[sp][h] = DLB_MonitoringRegionRegister("r"); return !U.m[sp][h]; });
            add("RegionStart(r)", h, [=](bool sp, int h) -> long { CUR long r = DLB_MonitoringRegionStart(U.m[sp][h]); show(U.m[sp][h]); return r; }, reg);
            add("RegionStop(r)", h, [=](bool sp, int h) -> long { CUR long r = DLB_MonitoringRegionStop(U.m[sp][h]); show(U.m[sp][h]); return r; }, reg);
            add("RegionStop(last)", h, [=](bool sp, int h) -> long { CUR return DLB_MonitoringRegionStop((dlb_monitor_t *)DLB_LAST_OPEN_REGION); });
            add("RegionStart(Global)", h, [=](bool sp, int h) -> long { CUR return DLB_MonitoringRegionStart((dlb_monitor_t *)DLB_GLOBAL_REGION); });
            add("Global()", h, [=](bool sp, int h) -> long { CUR DLB_MonitoringRegionsUpdate(); show(DLB_MonitoringRegionGetGlobal()); return 0; });
        }
        for (const char *v : {"--lewi", "--nothing"}) add(fmt("GetVariable(%s)", v), h, [=](bool sp, int h) -> long { char b[256] = ""; long r = sp ? DLB_GetVariable_sp(U.h[h], v, b) : DLB_GetVariable(v, b); W[cur].out += b; return r; });
        if (C.lewi && C.async) { OP("SetVariable(--debug-opts,lend-post-mortem)", SetVariable, "--debug-opts", "lend-post-mortem") }
        OP("CallbackSet(disable,none)", CallbackSet, dlb_callback_disable_cpu, nullptr, nullptr)
        if (C.two && (C.lewi || C.talp)) {
            add("into blocking call", h, [](bool sp, int h) -> long { if (sp) spd_enter_dlb((subprocess_descriptor_t *)U.h[h]), U.blocked |= 1 << h; into_sync_call(blocking()); return 0; }, [h]{ return U.init[h] && !(U.blocked >> h & 1); });
            add("out of blocking call", h, [](bool sp, int h) -> long { if (sp) spd_enter_dlb((subprocess_descriptor_t *)U.h[h]), U.blocked &= ~(1 << h); out_of_sync_call(blocking()); return 0; }, [h]{ return U.init[h] && (U.blocked >> h & 1); });
        }
    }
    if (!C.two && (C.lewi || C.talp)) {   /* one thread, without naming the handle: MPI calls concern the handle of its last call */
        o.push_back({"thread into blocking call", []{ return U.last < 2 && U.init[U.last] && !U.blocked; }, []{ vn_outlen = 0; both("into blocking call", U.last, [](bool sp, int h) -> long { if (sp) U.blocked |= 1 << h; into_sync_call(blocking()); return 0; }); }});
        o.push_back({"thread out of blocking call", []{ return U.last < 2 && U.init[U.last] && (U.blocked >> U.last & 1); }, []{ vn_outlen = 0; both("out of blocking call", U.last, [](bool sp, int h) -> long { if (sp) U.blocked &= ~(1 << h); out_of_sync_call(blocking()); return 0; }); }});
    }
    add("MPI call of a thread", 0, [](bool, int) -> long { into_sync_call(blocking()); out_of_sync_call(blocking()); return 0; }, []{ return !U.init[0] && !U.init[1]; });
    if (C.barrier) {
        add("Init", 2, [](bool sp, int) -> long { mu_testing_set_sys(4, C.cores, 1); U.xin = true; return DLB_Init(0, nullptr, fmt("--quiet --shm-key=%s %s", sp ? "b" : "a", C.args).c_str()); }, []{ return !U.xin; });
        add("BarrierDetach()", 2, [](bool, int) -> long { return DLB_BarrierDetach(); }, []{ return U.xin; }); add("BarrierAttach()", 2, [](bool, int) -> long { return DLB_BarrierAttach(); }, []{ return U.xin; });
        add("BarrierNamedRegister(a)", 2, [](bool sp, int) -> long { U.b[sp][2] = DLB_BarrierNamedRegister("a", (dlb_barrier_flags_t)0); return !U.b[sp][2]; }, []{ return U.xin; });
        add("BarrierNamedDetach(a)", 2, [](bool sp, int) -> long { return DLB_BarrierNamedDetach(U.b[sp][2]); }, []{ return U.xin && U.b[0][2]; });
    }
    if (C.talp && strstr(C.args, "external")) {
        add("TalpAttach", 2, [](bool sp, int) -> long { mu_testing_set_sys(4, C.cores, 1); vn_setenv(sp ? XB : XA, "DLB_ARGS", sp ? "--quiet --shm-key=b" : "--quiet --shm-key=a"); return DLB_TALP_Attach(); }, []{ return false; });
        add("TALP_GetPidList()", 2, [](bool, int) -> long { int l[8], k = 0; long r = DLB_TALP_GetPidList(l, &k, 8); for (int i = 0; i < k; ++i) W[cur].out += pidname(l[i]) + " "; return r; });
        for (const char *n : {"Global", "r"}) add(fmt("TALP_GetNodeTimes(%s)", n), 2, [=](bool, int) -> long { dlb_node_times_t t[8]; int k = 0; long r = DLB_TALP_GetNodeTimes(n, t, &k, 8); std::vector<std::string> v; if (!r) for (int i = 0; i < k; ++i) v.push_back(fmt("%s %d %d;", pidname(t[i].pid).c_str(), t[i].mpi_time > 0, t[i].useful_time > 0)); std::sort(v.begin(), v.end()); for (auto &s : v) W[cur].out += s; return r; });
    }
    if (C.drom) {
        add("Attach", 2, [](bool sp, int) -> long { mu_testing_set_sys(4, C.cores, 1); vn_setenv(sp ? XB : XA, "DLB_ARGS", sp ? "--quiet --shm-key=b" : "--quiet --shm-key=a"); return DLB_DROM_Attach(); }, []{ return false; });
        for (int t = 0; t < 2; ++t) {
            auto pid = [t](bool sp) { return sp ? U.spid[t] : PA + t; }; auto on = [t]{ return U.init[t]; };
            for (Mask m : {1, 4, 7, 12, 3}) add(fmt("SetProcessMask(%s,%s)", who(t), mstr(m).c_str()), 2, [=](bool sp, int) -> long { cpu_set_t s = to_set(m); return DLB_DROM_SetProcessMask(pid(sp), &s, (dlb_drom_flags_t)0); }, on);
            add(fmt("GetProcessMask(%s)", who(t)), 2, [=](bool sp, int) -> long { cpu_set_t s = to_set(0); long r = DLB_DROM_GetProcessMask(pid(sp), &s, (dlb_drom_flags_t)0); if (r >= 0) W[cur].out += mstr(from_set(&s)); return r; }, on);
        }
        add("GetPidList()", 2, [](bool, int) -> long { int l[8], k = 0; long r = DLB_DROM_GetPidList(l, &k, 8); for (int i = 0; i < k; ++i) W[cur].out += pidname(l[i]) + " "; return r; });
    }
    return o;
}
static void run(Cfg c, int depth) {
    for (int start = 0; start < (c.talp ? 3 : 2); ++start) {
        if (!mc::scenario(start == 2 ? "running" : start ? "initialized" : "fresh")) continue;
        C = c; memset(&U, 0, sizeof U); U.last = 2; vn_user_ptr = &U; vn_user_size = sizeof U; vn_tick = 0; vn_sysconf_cpus = 4; vn_capture = 1;
        for (int i = 0; i < 5; ++i) { vn_spawn(PA + (i < 2 ? i : i + 10)); topo(i, 4, C.cores, 1); if (!C.drom && !C.barrier && !strstr(C.args, "external") && i == SP) break; }
        if (C.two) G.proc[0].affinity[0] = 3, G.proc[1].affinity[0] = 12; if (C.two) { tid[0] = vn_main_thread(SP); tid[1] = vn_thread_extra(SP); for (int h = 0; h < 2; ++h) { vn_thread &T = G.thr[tid[h]]; T.affinity_set = 1; T.affinity[0] = h ? 12 : 3; } }
        auto ops = make();
        auto doit = [&](const std::string &n) { for (auto &x : ops) if (x.name == n) { x.run(); return; } };
        if (start) { doit("P1.Init"); doit("P2.Init"); }
        if (start == 2) { doit("P1.RegionStart(Global)"); doit("P2.RegionStart(Global)"); }
        if (C.drom) { for (int i = 0; i < 2; ++i) vn_setenv(i ? XB : XA, "DLB_ARGS", i ? "--quiet --shm-key=b" : "--quiet --shm-key=a"); if (start) doit("X.Attach"); else continue; }
        if (strstr(C.args, "external")) doit("X.TalpAttach");
        if (mc::is_bad()) return;
        mc::Limits l; l.depth = depth + mc::level; l.max_states = 2000000; mc::explore_ops(ops, nullptr, l);
    }
}
void mc_register() {
    auto J = [](const char *n, Cfg c, int d) { mc::job(n, [=]{ run(c, d); }, 8); };
    J("mask.poll", {"--lewi", false, true, false, false, false, false, 4}, 2);
    J("mask.async", {"--lewi --mode=async", false, true, false, false, true, false, 4}, 2);
    J("mask.threads", {"--lewi", false, true, false, false, false, true, 4}, 2);
    J("mask.async.threads", {"--lewi --mode=async", false, true, false, false, true, true, 4}, 2);
    J("mask.smt", {"--lewi", false, true, false, false, false, true, 2}, 2);
    J("count.async", {"--lewi --mode=async", true, true, false, false, true, true, 4}, 3);
    J("count.poll", {"--lewi", true, true, false, false, false, true, 4}, 3);
    J("drom", {"--lewi=no --drom", false, false, true, false, false, false, 4}, 3);
    J("lewi.drom", {"--lewi --drom", false, true, true, false, false, true, 4}, 2);
    J("barrier", {"--lewi=no", false, false, false, false, false, true, 4, true}, 4);
    J("talp", {"--lewi=no --talp --talp-summary=none", false, false, false, true, false, true, 4}, 3);
    J("talp.thread", {"--lewi=no --talp --talp-summary=none", false, false, false, true, false, false, 4}, 3);
    J("talp.ext", {"--lewi=no --talp --talp-summary=none --talp-external-profiler", false, false, false, true, false, true, 4}, 3);
    J("none", {"--lewi=no", false, false, false, false, false, true, 4}, 3);
}
