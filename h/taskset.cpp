/* dlb_taskset: every sequence of commands on running processes and launched applications, on the real tool and library, against
 * the machine of drom.cpp */
#define mc_register drom_register
#include "drom.cpp"
#undef mc_register
extern "C" long tool_run(int argc, char **argv, int child);
extern "C" char tool_out[4096], tool_prog[64]; extern "C" int tool_execs;
enum { TL = LAU, CH = 2 };      /* the process of the tool; the one it launches, which becomes the application */
static std::string clist(Mask m) { std::string s; for (int c = 0; c < C.ncpu; ++c) if (m >> c & 1) s += fmt(s.empty() ? "%d" : ",%d", c); return s; }
static long tool(int slot, std::vector<std::string> a, int child = 0) {
    static char store[16][64]; static char *argv[17]; int n = 0; a.insert(a.begin(), "dlb_taskset"); for (auto &s : a) { snprintf(store[n], 64, "%s", s.c_str()); argv[n] = store[n]; ++n; } argv[n] = nullptr;
    tool_execs = 0; tool_prog[0] = 0; topo(slot, C.ncpu, C.ncpu, 1); return in_proc(slot, [&]() -> long { return tool_run(n, argv, child); });
}
static long code() { char *p = strstr(tool_out, "Return code "); return p ? atol(p + 12) : 12345; }
/* the line about a process names exactly the CPUs in m */
static bool said(int pid, Mask m, const char *what) {
    char *p = strstr(tool_out, fmt("PID %d's %s", pid, what).c_str()); if (!p) return false; p += strlen(fmt("PID %d's %s", pid, what).c_str()); Mask got = 0; int last = -1; bool range = false;
    for (; *p && *p != '\n'; ++p) if (isdigit(*p)) { int c = strtol(p, &p, 10); --p; for (int i = range ? last : c; i <= c && i < 64; ++i) got |= 1UL << i; last = c; range = false; } else if (*p == '-') range = true;
    return got == m;
}
static void op_tset(int pid, Mask m, bool bor, bool run = false) {
    via_set = [=](int, Mask, int) -> long { std::vector<std::string> a = {m & 1 ? "--set" : "-c", clist(m)}; if (m & 2) a.insert(a.begin(), {"--pid", fmt("%d", pid)}); else a.insert(a.end(), {"-p", fmt("%d", pid)}); if (bor) a.push_back("--borrow");
        long r = tool(TL, a); if (mc::is_bad()) return 0; if (r == 0) { if (!said(pid, m, "affinity set to:")) bad("output", "--set %s of process %d reported: %s", mstr(m).c_str(), pid, tool_out); return DLB_SUCCESS; }
        if (r != 1) bad("result", "--set ended with %ld", r); return code(); };
    op_set(TL, pid, m, bor ? DLB_RETURN_STOLEN : 0, 0); via_set = nullptr; (void)run;
}
static void op_tremove(int pid, Mask m) {
    std::vector<std::string> a = {m & 1 ? "--remove" : "-r", clist(m)}; if (pid) { a.push_back("--pid"); a.push_back(fmt("%d", pid)); }
    long r = tool(TL, a); if (mc::is_bad()) return; bool fail = pid && !ent(pid);
    for (auto &e : U.e) if (e.reg && (!pid || e.key == pid) && ((e.dirty ? e.fut : e.cur) & m) && e.dirty) fail = true;
    if ((r != 0) != fail || r > 1) { bad("result", "--remove %s ended with %ld: %s (%s)", mstr(m).c_str(), r, tool_out, show().c_str()); return; }
    for (auto &e : U.e) if (e.reg && (!pid || e.key == pid) && !e.dirty && (e.cur & m)) {
        Mask nm = e.cur & ~m; long er; Mask now = query(e.key, &er); if (mc::is_bad()) return; if (fail && now == e.cur) continue;
        if (!said(e.key, nm, "affinity set to:")) { bad("output", "--remove %s of process %d reported: %s", mstr(m).c_str(), e.key, tool_out); return; }
        bool amb; m_set(&e, nm, false, false, &amb); mc::outcome(nm ? "CPUs removed" : "all CPUs removed");
    }
    mc::outcome(fail ? "removal refused" : "removal done");
}
static void op_tlist(int pid) {
    long r = tool(TL, pid == -1 ? std::vector<std::string>{"--list"} : std::vector<std::string>{"-l", "--pid", fmt("%d", pid)}); if (mc::is_bad()) return; Ent *e = ent(pid);
    if (pid == -1) { if (r) bad("result", "--list ended with %ld: %s", r, tool_out); return; }
    if (r != (e ? 0 : 1)) { bad("result", "--list --pid %d ended with %ld: %s", pid, r, tool_out); return; }
    if (e && !said(pid, e->dirty ? e->fut : e->cur, "current affinity CPU list:")) bad("output", "--list --pid %d printed: %s (%s)", pid, tool_out, show().c_str());
}
static void op_tgetpid() {
    std::string seen; for (int i = 0; i <= slots(); ++i) { long r = tool(TL, {"--getpid", fmt("%d", i)}); if (mc::is_bad()) return; if (r) { bad("result", "--getpid %d ended with %ld", i, r); return; }
        std::string o = tool_out; if (i == slots() ? !o.empty() : (!ent(atoi(o.c_str())) || seen.find(o) != seen.npos)) { bad("output", "--getpid %d printed '%s' after '%s' (%s)", i, o.c_str(), seen.c_str(), show().c_str()); return; } seen += o; }
}
/* combinations of options that are no command do nothing and fail */
static void op_tbad(unsigned set) {
    std::vector<std::string> a; if (set & 1) a.push_back("--list"); if (set & 2) { a.push_back("--set"); a.push_back("0"); } if (set & 4) { a.push_back("--remove"); a.push_back("0"); } if (set & 8) { a.push_back("--getpid"); a.push_back("0"); }
    if (set & 16) { a.push_back("--pid"); a.push_back(fmt("%d", PID(0))); } if (set & 32) a.push_back("app");
    int n = !!(set & 1) + !!(set & 2) + !!(set & 4) + !!(set & 8); bool ok = set & 32 ? !(set & (1 | 4 | 8 | 16)) : n == 1 && (!(set & 2) || (set & 16)); if (ok) return;
    long r = tool(TL, a, PID(CH)); if (mc::is_bad()) return; if (r != 1 || tool_execs) bad("usage", "options %#x: ended with %ld", set, r);
}
static std::vector<std::string> cmd(Mask m, bool aff, bool bor) { std::vector<std::string> a; if (!aff) { a.push_back("--set"); a.push_back(clist(m)); } if (bor) a.push_back("--borrow"); a.push_back("app"); a.push_back("-x"); return a; }
static void op_trun(Mask m, bool aff, bool bor) {
    bool ok = false; memset(G.proc[CH].env, 0, sizeof G.proc[CH].env); G.proc[CH].affinity[0] = aff ? m : all(); fresh();
    via_pre = [&](Mask, int) -> long { long r = tool(CH, cmd(m, aff, bor), 0); if (mc::is_bad()) return 0; if (r == 1000) { ok = true; if (strcmp(tool_prog, "app -x")) bad("exec", "executed '%s'", tool_prog); return DLB_SUCCESS; } if (r != 1) bad("result", "the launched process ended with %ld", r); return code(); };
    op_preinit(m, DLB_STEAL_CPUS | (bor ? DLB_RETURN_STOLEN : 0), 0); via_pre = nullptr; if (mc::is_bad()) return;
    if (G.proc[CH].affinity[0] != m) bad("affinity", "the application starts on %s, should be %s", mstr(G.proc[CH].affinity[0]).c_str(), mstr(m).c_str());
    U.child = true; U.bor = bor; U.lm = m; U.laff = aff; mc::outcome(ok ? "application launched" : "launch refused");
}
static void op_twait() {
    via_post = [](int) -> long { long r = tool(TL, cmd(U.lm, U.laff, U.bor), PID(CH)); if (mc::is_bad()) return 0; if (r) { bad("result", "the tool ended with %ld: %s", r, tool_out); return 0; } return ent(PREPID) ? DLB_SUCCESS : DLB_ERR_NOPROC; };
    op_postfin(U.bor ? DLB_RETURN_STOLEN : 0); via_post = nullptr; U.child = U.bor = false; U.lm = 0; mc::outcome("launched application ended"); fresh();
}
static void trun(Cfg c, int depth, unsigned cmds) {
    C = c; C.tool = true; PREPID = PID(CH); memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; vn_sleep_hook = nullptr; U.free = all();
    for (int p = 0; p < 3; ++p) vn_spawn(PID(p)); while (vn_spawn(1100 + G.nprocs) < ADM) {}
    topo(ADM, C.ncpu, C.ncpu, 1); if (C.attached) IN(ADM, DLB_DROM_Attach());
    for (int p = 0; p < 2 && !mc::is_bad(); ++p) if (C.mask[p]) op_init(p, C.mask[p], false);
    std::vector<mc::Op> o; auto add = [&](const std::string &n, std::function<bool()> en, std::function<void()> f) { o.push_back({n, en, f}); };
    for (int p = 0; p < 3; ++p) { auto on = [p]{ return U.run[p]; }; add(fmt("P%d.PollUpdate", p), on, [=]{ op_poll(p, true); }); add(fmt("P%d.Finalize", p), on, [=]{ op_finalize(p); });
        if (p < 2) add(fmt("P%d.Init(%s)", p, mstr(C.mask[p] ? C.mask[p] : 1).c_str()), [p]{ return !U.run[p]; }, [=]{ op_init(p, C.mask[p] ? C.mask[p] : 1, false); }); }
    for (Mask m = 1; m <= all(); ++m) {
        if (cmds & 1) for (int p = 0; p < 3; ++p) for (int b = 0; b < 2; ++b) add(fmt("taskset --set %s --pid P%d%s", mstr(m).c_str(), p, b ? " --borrow" : ""), nullptr, [=]{ op_tset(PID(p), m, b); });
        if (cmds & 2) for (int p = -1; p < 3; ++p) add(fmt("taskset --remove %s%s", mstr(m).c_str(), p < 0 ? "" : fmt(" --pid P%d", p).c_str()), nullptr, [=]{ op_tremove(p < 0 ? 0 : PID(p), m); });
        if (cmds & 4) for (int b = 0; b < 2; ++b) for (int aff = 0; aff < 2; ++aff) if (!aff || m == 1 || m == all()) add(fmt("taskset %s%s app", aff ? fmt("(on %s)", mstr(m).c_str()).c_str() : ("--set " + mstr(m)).c_str(), b ? " --borrow" : ""), []{ return !U.child; }, [=]{ op_trun(m, aff, b); });
    }
    if (cmds & 4) {
        add("app.Init", []{ return U.child && !U.run[CH]; }, []{ op_init(CH, U.lm, true); });
        add("app ends", []{ return U.child && !U.run[CH]; }, []{ op_twait(); });
    }
    add("taskset --list, --getpid", nullptr, []{ op_tlist(-1); for (int p = 0; p < 3 && !mc::is_bad(); ++p) op_tlist(PID(p)); if (!mc::is_bad()) op_tgetpid(); });
    add("taskset with invalid options", nullptr, []{ for (unsigned s = 0; s < 64 && !mc::is_bad(); ++s) op_tbad(s); });
    mc::Limits l; l.depth = depth; l.max_states = 3000000; l.probes = {(int)o.size() - 2};
    mc::explore_ops(o, invariant, l);
}
#include <signal.h>
/* ---- dlb_run: the launcher reserves its CPUs, waits for its child and releases them, whatever happens in between */
extern "C" long run_tool(int argc, char **argv); extern "C" char run_out[4096], run_prog[64]; extern "C" void (*run_handler[65])(int); extern "C" sigset_t run_blocked[65]; extern "C" int run_alarm;
static std::vector<std::function<void()>> script; static Mask rmask; static int rsig, rstatus; static bool rchild, rforked, rwaited, rhang; static int rin;
static void back() { IN(LAU, 0); }     /* to the process of the tool */
static void quiet_env() { memset(G.proc[LAU].env, 0, sizeof G.proc[LAU].env); vn_setenv(LAU, "DLB_ARGS", "--drom --quiet"); }
extern "C" int run_fork(void) {
    if (rchild) return 0; rforked = true; memcpy(G.proc[CH].env, G.proc[LAU].env, sizeof G.proc[CH].env); G.proc[CH].affinity[0] = rmask;
    via_lpre = []() -> long { return DLB_SUCCESS; }; op_lpre(rmask); via_lpre = nullptr; if (!mc::is_bad()) invariant(); back(); return PID(CH);
}
extern "C" int run_wait(int *st) {
    if (rsig) { int s = rin = rsig; rsig = 0; if (!run_handler[s]) { bad("signal", "signal %d ends dlb_run and its reservation stays", s); return -1; } if (!mc::is_bad()) run_handler[s](s); }
    if (rhang) { if (mc::is_bad()) return -1;     /* the child never ends: only the alarm ends the wait in the handler */
        if (rin && run_alarm && run_handler[SIGALRM] && !sigismember(&run_blocked[rin], SIGALRM)) { run_handler[SIGALRM](SIGALRM); if (!mc::is_bad()) bad("hang", "dlb_run goes on after its time limit"); }
        bad("hang", "after a signal dlb_run waits forever for a child that does not end"); return -1; }
    if (rwaited) { errno = ECHILD; return -1; } rwaited = true;
    for (auto &f : script) { if (!mc::is_bad()) f(); if (!mc::is_bad()) invariant(); } if (U.run[CH] && !mc::is_bad()) op_finalize(CH); if (st) *st = rstatus; back(); return PID(CH);
}
static void op_dlbrun(Mask m, std::vector<std::function<void()>> sc, int sig, int status, bool verb) {
    static char av[4][16] = {"dlb_run", "--verbose", "app", "-x"}; char *argv[5] = {av[0]}; int n = 1; if (verb) argv[n++] = av[1]; argv[n++] = av[2]; argv[n++] = av[3]; argv[n] = nullptr; topo(LAU, C.ncpu, C.ncpu, 1);
    script = sc; rmask = m; rsig = sig; rstatus = status; rforked = rwaited = false; G.proc[LAU].affinity[0] = m; quiet_env(); fresh();
    struct vn_snap s; vn_save(&s, 0); User u = U; rchild = true; long r = in_proc(LAU, [&]() -> long { return run_tool(n, argv); }); rchild = false; vn_restore(&s); U = u; vn_snap_free(&s); if (mc::is_bad()) return;
    bool ok = r == 1000; if (ok ? strcmp(run_prog, "app -x") : r != 1) { bad("exec", "the child of dlb_run ends with %ld and executed '%s'", r, run_prog); return; }
    r = in_proc(LAU, [&]() -> long { return run_tool(n, argv); }); if (mc::is_bad()) return;
    if (!ok && rforked) { bad("exec", "the child of dlb_run did not execute the application"); return; }
    if (!rforked) { char *p = strstr(run_out, "Return code "); long e = p ? atol(p + 12) : 12345; via_lpre = [=]() -> long { return e; }; op_lpre(m); via_lpre = nullptr; if (mc::is_bad()) return; if (r != 1) { bad("result", "dlb_run ended with %ld without its reservation", r); return; } mc::outcome("dlb_run refused"); op_lfin(); return; }
    if (!rwaited || r != (sig ? 1 : 0)) { bad("result", "dlb_run ended with %ld%s: %s", r, rwaited ? "" : " before its child", run_out); return; }
    if ((status & 0x7f) && !strstr(run_out, "terminated")) { bad("output", "a child that was killed is not reported: '%s'", run_out); return; }
    via_lfin = []() -> long { return DLB_SUCCESS; }; op_lfin(); via_lfin = nullptr; memset(G.proc[CH].env, 0, sizeof G.proc[CH].env); mc::outcome(sig ? "dlb_run signalled" : "application run");
}
/* a signal while the child does not end: a time limit ends dlb_run */
static void op_runhang(Mask m, int sig) {
    char a0[] = "dlb_run", a1[] = "app"; char *argv[] = {a0, a1, nullptr}; topo(LAU, C.ncpu, C.ncpu, 1); script.clear(); rmask = m; rsig = sig; rin = 0; rforked = rwaited = false; G.proc[LAU].affinity[0] = m; quiet_env(); fresh();
    struct vn_snap s; vn_save(&s, 0); User u = U; rhang = true; long r = in_proc(LAU, [&]() -> long { return run_tool(2, argv); }); rhang = false; vn_restore(&s); U = u; vn_snap_free(&s); rsig = rin = 0;
    if (!mc::is_bad() && r != 1) bad("result", "dlb_run ended with %ld", r); if (rforked) mc::outcome("dlb_run gave up");
}
/* command lines without an application to run */
static void op_runusage(int k) {
    static char av[4][12] = {"--bogus", "--help", "-v", "-h"}; char a0[] = "dlb_run", a1[] = "app"; char *argv[] = {a0, k < 4 ? av[k] : nullptr, a1, nullptr}; topo(LAU, C.ncpu, C.ncpu, 1); rforked = rwaited = false; quiet_env();
    long r = in_proc(LAU, [&]() -> long { return run_tool(k < 4 ? 3 : 1, argv); }); if (!mc::is_bad() && (r != (k == 0 || k == 4) || rforked || !run_out[0])) bad("usage", "dlb_run%s%s ended with %ld%s: %s", k < 4 ? " " : "", k < 4 ? av[k] : "", r, rforked ? " and ran something" : "", run_out);
}
static int sig_of(Mask m) { return m == 2 ? 15 : m == 3 ? 2 : m == 4 ? 3 : 6; }
static void rrun(Cfg c, int depth, int len) {
    C = c; C.tool = true; PREPID = 1050; memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; vn_sleep_hook = nullptr; U.free = all();
    for (int p = 0; p < 3; ++p) vn_spawn(PID(p)); while (vn_spawn(G.nprocs == LAU ? PREPID : 1100 + G.nprocs) < ADM) {}
    topo(ADM, C.ncpu, C.ncpu, 1); if (C.attached) IN(ADM, DLB_DROM_Attach());
    for (int p = 0; p < 2 && !mc::is_bad(); ++p) if (C.mask[p]) op_init(p, C.mask[p], false);
    std::vector<mc::Op> o; auto add = [&](const std::string &n, std::function<bool()> en, std::function<void()> f) { o.push_back({n, en, f}); };
    std::vector<std::pair<std::string, std::function<void()>>> ev; std::vector<std::vector<int>> seqs{{}};
    for (Mask m : {1UL, 2UL, 6UL, all()}) ev.push_back({"Init" + mstr(m), [=]{ if (!U.run[CH]) op_init(CH, m, true); }});
    ev.push_back({"Finalize", []{ if (U.run[CH]) op_finalize(CH); }}); ev.push_back({"Poll", []{ if (U.run[CH]) op_poll(CH, true); }}); ev.push_back({"P1.end", []{ if (U.run[1]) op_finalize(1); else op_init(1, C.mask[1] ? C.mask[1] : 1, false); }});
    for (Mask m : {1UL, 3UL}) { ev.push_back({"A.Set(child," + mstr(m) + ")", [=]{ op_set(ADM, PID(CH), m, 0, 0); }}); } ev.push_back({"A.Set(reserved,{0})", []{ op_set(ADM, PREPID, 1, 0, 0); }});
    for (size_t i = 0; i < seqs.size(); ++i) if ((int)seqs[i].size() < len) for (int e = 0; e < (int)ev.size(); ++e) { auto q = seqs[i]; q.push_back(e); seqs.push_back(q); }
    for (auto &q : seqs) for (Mask m : {2UL, 3UL, 4UL, all()}) { std::string n; std::vector<std::function<void()>> fs; for (int e : q) { n += " " + ev[e].first; fs.push_back(ev[e].second); }
        bool used = !q.empty(); for (int k = 0; k < (used ? 2 : 4); ++k) add(fmt("dlb_run on %s:%s%s", mstr(m).c_str(), n.c_str(), k == 1 ? fmt(" signal %d", sig_of(m)).c_str() : k == 2 ? " killed" : k == 3 ? " exit 3" : ""), nullptr, [=]{ op_dlbrun(m, fs, k == 1 ? sig_of(m) : 0, k == 2 ? 9 : k == 3 ? 3 << 8 : 0, m & 1); }); }
    for (Mask m : {2UL, 3UL, 4UL, all()}) add(fmt("dlb_run on %s, signal %d, the child does not end", mstr(m).c_str(), sig_of(m)), nullptr, [=]{ op_runhang(m, sig_of(m)); });
    for (int k = 0; k < 5; ++k) add(fmt("dlb_run usage %d", k), nullptr, [=]{ op_runusage(k); });
    for (int p = 0; p < 2; ++p) { auto on = [p]{ return U.run[p]; }; add(fmt("P%d.PollUpdate", p), on, [=]{ op_poll(p, true); }); add(fmt("P%d.Finalize", p), on, [=]{ op_finalize(p); });
        add(fmt("P%d.Init(%s)", p, mstr(C.mask[p] ? C.mask[p] : 1).c_str()), [p]{ return !U.run[p]; }, [=]{ op_init(p, C.mask[p] ? C.mask[p] : 1, false); }); }
    for (Mask m = 1; m <= all(); ++m) add(fmt("A.Set(P0,%s)", mstr(m).c_str()), []{ return U.run[0]; }, [=]{ op_set(ADM, PID(0), m, 0, 0); });
    mc::Limits l; l.depth = depth; l.max_states = 3000000; mc::explore_ops(o, invariant, l);
}
void mc_register() {
    auto J = [](const char *n, Cfg c, int d, unsigned cmds) { mc::job(n, [=]{ trun(c, d + mc::level, cmds); }, 8); };
    Cfg a{}; a.np = 3; a.ncpu = 3; a.mask[0] = 3; a.mask[1] = 4; a.attached = true; J("set", a, 4, 3); J("launch", a, 4, 6); 
    Cfg f = a; f.mask[0] = 1; J("set.free", f, 4, 3); J("launch.free", f, 4, 5); f.attached = false; J("set.unattached", f, 4, 3); J("launch.unattached", f, 4, 4);
    auto R = [](const char *n, Cfg c, int d, int len) { mc::job(n, [=]{ rrun(c, d, len + mc::level); }, 8); };
    Cfg r{}; r.np = 3; r.ncpu = 3; r.mask[0] = 1; r.attached = true; R("run", r, 2, 2); r.mask[0] = 0; r.mask[1] = 4; r.attached = false; R("run.unattached", r, 2, 2);
}
