/* dlb_shm and DLB_PrintShmem: from every state of processes on several shared memories, the listing shows exactly that state;
 * deletion removes the files of DLB and of the user, and no other */
#include "hn.h"
#include <sys/stat.h>
#include <set>
using mc::bad; using mc::fmt;
extern "C" long st_run(int argc, char **argv); extern "C" char **environ;
enum { NP = 3, ADM = 3, TOOL = 4 };
static int PID(int p) { return p == 2 ? 12345 : 101 + p; }
enum St { OFF, BUSY, LENT };
struct Proc { bool run, dirty; Mask cur, fut, stolen; };
struct Cpu { int own, guest; St st; std::string *x; };
struct Cfg { int ncpu; Mask mask[NP]; int group[NP]; const char *key[NP]; const char *args; bool barrier, talp, async; };
static Cfg C;
static struct User { Proc p[NP]; struct { int own, guest, st; unsigned req; } c[2][64]; unsigned parts[2], times[2], ever; unsigned bars; bool region[NP]; int preq[NP]; } U;
static std::string out; static bool over; static std::vector<std::string> gone; static int fail_unlink = -1;
struct File { std::string name; int uid; mode_t mode, target; };
static std::vector<File> extra; static bool reversed, with_shm;
static std::vector<File> files() {
    std::vector<File> v; if (with_shm) for (int i = 0; i < VN_MAXSHM; ++i) if (G.shm[i].used && G.shm[i].linked) v.push_back({G.shm[i].name + 1, 0, S_IFREG | 0600, S_IFREG | 0600});
    for (auto &e : extra) v.push_back(e); if (reversed) std::reverse(v.begin(), v.end()); return v;
}
static std::vector<File> listing;
extern "C" int st_file(int i, char *name, struct stat *st, struct stat *lst) {
    if (i >= (int)listing.size()) return 0; auto &f = listing[i]; strcpy(name, f.name.c_str()); if (st) { memset(st, 0, sizeof *st); st->st_uid = f.uid; st->st_mode = f.target; } if (lst) { memset(lst, 0, sizeof *lst); lst->st_uid = f.uid; lst->st_mode = f.mode; } return 1;
}
extern "C" int st_unlink(const char *n) { if ((int)gone.size() == fail_unlink) { errno = EPERM; return -1; } gone.push_back(n); return 0; }
extern "C" void st_overflow(void) { over = true; }
static void flush_() { out.append(vn_out, vn_outlen); vn_outlen = 0; }
extern "C" void st_say(const char *s) { flush_(); out += s; }
static long tool(std::vector<std::string> a, bool sys = true) {
    static char store[8][64]; static char *argv[9]; int n = 0; a.insert(a.begin(), "dlb_shm"); for (auto &s : a) { snprintf(store[n], 64, "%s", s.c_str()); argv[n] = store[n]; ++n; } argv[n] = nullptr;
    listing = files(); out.clear(); gone.clear(); over = false; vn_outlen = 0; vn_capture = 1; if (sys) topo(TOOL, C.ncpu, C.ncpu, 1);
    long r = in_proc(TOOL, [&]() -> long { return st_run(n, argv); }); flush_(); vn_capture = 0; if (over) bad("memory", "the tool wrote beyond the end of an allocated block"); return r;
}
static bool pending() { for (int x : U.preq) if (x) return true; return false; }
static std::string show() { std::string s; for (int p = 0; p < NP; ++p) if (U.p[p].run) s += fmt("P%d(pid %d):%s%s ", p, PID(p), mstr(U.p[p].cur).c_str(), U.p[p].dirty ? ("->" + mstr(U.p[p].fut)).c_str() : ""); return s; }
static std::string strip(const std::string &s) { std::string o; for (size_t i = 0; i < s.size(); ++i) if (s[i] == 27) { while (i < s.size() && s[i] != 'm') ++i; } else o += s[i]; return o; }
static std::vector<std::string> lines(const std::string &s) { std::vector<std::string> v; size_t b = 0; while (b < s.size()) { size_t e = s.find('\n', b); if (e == s.npos) e = s.size(); v.push_back(s.substr(b, e - b)); b = e + 1; } return v; }
static Mask parse(const char *s) { Mask m = 0; int last = -1; bool range = false; for (; *s; ++s) if (isdigit(*s)) { int c = strtol(s, (char**)&s, 10); --s; for (int i = range ? last : c; i <= c && i < 64; ++i) m |= 1UL << i; last = c; range = false; } else if (*s == '-') range = true; return m; }
static const char *stname(int own, int guest, int st) { return st == OFF ? "off" : st == BUSY && guest == own ? "busy" : st == BUSY ? "recl" : !guest ? "idle" : "lent"; }
static const char *colour(int own, int guest, int st) { return st == OFF ? "\x1B[0m" : st == BUSY && guest == own ? "\x1B[31m" : st == BUSY ? "\x1B[33m" : !guest ? "\x1B[32m" : "\x1B[34m"; }
/* the text is the state of the processes of group g */
static void check(const std::string &raw, int g, int cols, bool color) {
    int np = 0, seen = 0, owners = 0; std::set<int> cpus, procs; std::string req, names; bool table = false; std::string text = strip(raw);
    for (int c = 0; c < C.ncpu; ++c) owners += U.c[g][c].own != 0; for (auto &p : U.p) if (p.run && C.group[&p - U.p] == g) ++np;
    unsigned reqs[64] = {}; int pr[NP] = {}; bool inpr = false, inreq = false, inbar = false, intalp = false; int nbar = 0, ntalp = 0;
    for (auto &l : lines(text)) {
        if (l.find("===") != l.npos) { inreq = inpr = false; inbar = l.find("Barriers") != l.npos; intalp = l.find("TALP") != l.npos; }
        if (l.find("Cpu requests") != l.npos) { inreq = true; continue; }
        if (l.find("Process requests") != l.npos) { inpr = true; inreq = false; continue; }
        int a, b, c, cells = 0, n; char st[16];
        if (!inreq) for (const char *s = l.c_str(); (s = strchr(s, '[')); ++s) {
            const char *q = s; while (q > l.c_str() && q[-1] == ' ') --q; while (q > l.c_str() && isdigit(q[-1])) --q; st[0] = 0;
            if (sscanf(q, "%d [ %d / %d / %15[a-z ]", &a, &b, &c, st) < (color ? 3 : 4)) continue; ++cells; ++seen; if (a < 0 || a >= C.ncpu || !cpus.insert(a).second) { bad("cpus", "CPU %d is listed twice, or does not exist: %s", a, raw.c_str()); return; }
            if (char *e = strchr(st, ' ')) *e = 0; auto &m = U.c[g][a]; if (b != m.own || c != m.guest || (!color && strcmp(st, stname(m.own, m.guest, m.st)))) { bad("cpus", "CPU %d is listed as '%s', it is owned by %d, used by %d and %s (%s)", a, l.c_str(), m.own, m.guest, stname(m.own, m.guest, m.st), show().c_str()); return; }
            if (color) { size_t k = raw.find(fmt(" %4d %s[ ", a, colour(m.own, m.guest, m.st))); if (k == raw.npos) { bad("cpus", "the colour of CPU %d is not that of '%s' (%s)", a, stname(m.own, m.guest, m.st), show().c_str()); return; } }
        }
        if (cols > 0 && cells > cols) { bad("columns", "%d columns instead of %d", cells, cols); return; }
        if (inreq && sscanf(l.c_str(), " %d: %n", &a, &n) == 1 && a >= 0 && a < 64) { for (const char *s = l.c_str() + n; *s; ) { if (isdigit(*s)) { long pid = strtol(s, (char**)&s, 10); for (int p = 0; p < NP; ++p) if (pid == PID(p)) reqs[a] |= 1u << p, pid = 0; if (pid) reqs[a] |= 1u << 31; } else ++s; } }
        if (inpr && sscanf(l.c_str(), " %d: %d, %n", &a, &b, &n) == 2) { int k = -1; for (int p = 0; p < NP; ++p) if (PID(p) == a) k = p; if (k < 0) { bad("requests", "request of process %d", a); return; } pr[k] += b; }
        char f[4][64]; int d;
        if (inbar && sscanf(l.c_str(), " | %60s | %d | %d | %d |", f[0], &a, &b, &c) == 4) { ++nbar; if (strcmp(f[0], "default") || a != (int)U.parts[g] || b || c != (int)U.times[g]) { bad("barriers", "the barrier is listed as '%s', %u processes take part and it was completed %u times", l.c_str(), U.parts[g], U.times[g]); return; } }
        else if (intalp && sscanf(l.c_str(), " | %d | %60[^|] | %60s | %60s |", &a, f[0], f[1], f[2]) == 4) { ++ntalp; std::string nm = f[0]; while (!nm.empty() && nm.back() == ' ') nm.pop_back(); names += fmt("%d:%s ", a, nm.c_str()); }
        else if (!inbar && !intalp && sscanf(l.c_str(), " | %d | %60s | %60s | %60s | %d |", &a, f[0], f[1], f[2], &d) == 5) {
            Proc *p = nullptr; for (int i = 0; i < NP; ++i) if (PID(i) == a && U.p[i].run && C.group[i] == g) p = &U.p[i];
            if (!p || !procs.insert(a).second || parse(f[0]) != p->cur || (p->dirty && parse(f[1]) != p->fut) || (!p->dirty && parse(f[1]) != p->cur) || parse(f[2]) != p->stolen || d != p->dirty) { bad("processes", "a process is listed as '%s' (%s)", l.c_str(), show().c_str()); return; }
        }
    }
    if (seen != (owners ? C.ncpu : 0)) { bad("cpus", "%d CPUs listed, %d of %d have an owner:\n%s", seen, owners, C.ncpu, raw.c_str()); return; }
    if ((int)procs.size() != np) { bad("processes", "%zu processes listed, there are %d:\n%s", procs.size(), np, raw.c_str()); return; }
    for (int c = 0; c < C.ncpu; ++c) if (reqs[c] != U.c[g][c].req) { bad("requests", "requests of CPU %d listed as %#x instead of %#x:\n%s", c, reqs[c], U.c[g][c].req, raw.c_str()); return; }
    for (int p = 0; p < NP; ++p) if (pr[p] != (C.group[p] == g ? U.preq[p] : 0)) { bad("requests", "process %d is listed as asking for %d CPUs, it asks for %d:\n%s", PID(p), pr[p], U.preq[p], raw.c_str()); return; }
    if (C.barrier && nbar != (U.parts[g] ? 1 : 0)) { bad("barriers", "%d barriers listed, %u processes take part:\n%s", nbar, U.parts[g], raw.c_str()); return; }
    std::string want; if (C.talp) { int nt = 0; for (int p = 0; p < NP; ++p) if (U.p[p].run && C.group[p] == g) for (int k = 0; k < 1 + U.region[p]; ++k) { ++nt; std::string w = fmt("%d:%s ", PID(p), k ? "my region" : "Global"); if (names.find(w) == names.npos) { bad("regions", "region %s is not listed: %s", w.c_str(), raw.c_str()); return; } } if (nt != ntalp) { bad("regions", "%d regions listed, there are %d:\n%s", ntalp, nt, raw.c_str()); return; } }
    mc::outcome(owners ? "CPUs and processes listed" : "nothing registered");
    for (int c = 0; c < C.ncpu; ++c) if (owners) { mc::outcome(fmt("a CPU listed as %s", stname(U.c[g][c].own, U.c[g][c].guest, U.c[g][c].st)).c_str()); if (U.c[g][c].req) mc::outcome("a CPU request listed"); } for (auto &p : U.p) if (p.run && p.dirty) mc::outcome("a pending mask listed"); if (pending()) mc::outcome("a request of a process listed");
}
static std::string keyof(int g) { for (int p = 0; p < NP; ++p) if (C.group[p] == g) return *C.key[p] ? C.key[p] : "0"; return ""; }
static std::set<std::string> names() { std::set<std::string> s; for (int i = 0; i < VN_MAXSHM; ++i) if (G.shm[i].used && G.shm[i].linked) s.insert(G.shm[i].name); return s; }
static void op_list(int cols, bool longopt, bool color, const char *env) {
    memset(G.proc[TOOL].env, 0, sizeof G.proc[TOOL].env); if (env) vn_setenv(TOOL, "DLB_ARGS", env);
    with_shm = true; extra = {{"DLB_cpuinfo_other", 77, S_IFREG | 0600, S_IFREG | 0600}, {"procinfo_nodlb", 0, S_IFREG | 0600, S_IFREG | 0600}, {"sem.DLB_cpuinfo_s", 0, S_IFREG | 0600, S_IFREG | 0600}}; auto before = names();
    std::vector<std::string> a = {longopt ? (cols ? fmt("--list=%d", cols) : "--list") : (cols ? fmt("-l%d", cols) : "-l")}; if (color) a.push_back("--color"); else if (cols & 1) a.push_back("--color=no");
    long r = tool(a); if (mc::is_bad()) return; if (r) { bad("result", "--list ended with %ld: %s", r, out.c_str()); return; }
    if (names() != before) { bad("shmem", "--list changed the set of shared memories"); return; }
    std::set<std::string> want, got; for (auto &n : before) for (auto pre : {"/DLB_cpuinfo_", "/DLB_procinfo_", "/DLB_barrier_"}) if (!n.compare(0, strlen(pre), pre)) want.insert(n.substr(strlen(pre)));
    std::string o = out; const std::string F = "Found DLB shmem with id: "; size_t k = o.find(F); if (k == o.npos) k = o.size(); if (k && o.substr(0, k).find('[') != std::string::npos) { bad("output", "text before the first key: %s", o.c_str()); return; }
    while (k < o.size() && !mc::is_bad()) { size_t e = o.find('\n', k), n = o.find(F, e); if (n == o.npos) n = o.size(); std::string key = o.substr(k + F.size(), e - k - F.size()); if (!got.insert(key).second || !want.count(key)) { bad("keys", "key %s is listed twice, or does not exist: %s", key.c_str(), o.c_str()); return; } for (int g = 0; g < 2; ++g) if (key == keyof(g)) check(o.substr(e + 1, n - e - 1), g, cols, color); k = n; }
    if (!mc::is_bad() && got != want) bad("keys", "%zu keys are listed, there are %zu: %s", got.size(), want.size(), o.c_str());
}
static void op_print(int p, int cols, bool color) {
    auto before = names(); out.clear(); vn_outlen = 0; vn_capture = 1; long r = IN(p, DLB_PrintShmem(cols, color ? DLB_COLOR_ALWAYS : DLB_COLOR_AUTO)); flush_(); vn_capture = 0; if (mc::is_bad()) return;
    if (r) { bad("result", "DLB_PrintShmem returned %s", errname(r)); return; } if (names() != before) { bad("shmem", "DLB_PrintShmem changed the set of shared memories"); return; } check(out, C.group[p], cols, color);
}
/* any content of the directory: only regular files of the user with the names of DLB go; a failure is reported */
static void op_delete() {
    with_shm = false; static const File all[] = {{"DLB_cpuinfo_0", 0, S_IFREG, S_IFREG}, {"sem.DLB_x", 0, S_IFREG, S_IFREG}, {"DLB_talp_other", 77, S_IFREG, S_IFREG}, {"DLB_dir", 0, S_IFDIR, S_IFDIR}, {"DLB_link", 0, S_IFLNK, S_IFREG}, {"myDLB_x", 0, S_IFREG, S_IFREG}, {"sem.other", 0, S_IFREG, S_IFREG}, {"DLB_procinfo_k", 0, S_IFREG, S_IFREG}, {".", 0, S_IFDIR, S_IFDIR}, {"sem.DLB_o", 77, S_IFREG, S_IFREG}};
    for (int s = 0; s < 1024; ++s) for (int rev = 0; rev < 2; ++rev) for (int fl = -1; fl < 4; ++fl) {
        extra.clear(); for (int i = 0; i < 10; ++i) if (s >> i & 1) extra.push_back(all[i]); reversed = rev; std::vector<std::string> want; for (auto &f : files()) if (f.name == "DLB_cpuinfo_0" || f.name == "sem.DLB_x" || f.name == "DLB_procinfo_k") want.push_back(f.name);
        if (fl >= (int)want.size()) continue; fail_unlink = fl; long r = tool({s & 1 ? "-d" : "--delete"}, false); fail_unlink = -1; reversed = false; if (mc::is_bad()) return;
        for (auto &g : gone) if (g.compare(0, 9, "/dev/shm/") == 0) g = g.substr(9); auto w = want; if (fl >= 0) { if (r != 1) { bad("result", "--delete ended with %ld and a file could not be deleted", r); return; } for (auto &g : gone) if (std::find(w.begin(), w.end(), g) == w.end()) { bad("delete", "%s was deleted", g.c_str()); return; } mc::outcome("a file cannot be deleted"); continue; }
        std::sort(w.begin(), w.end()); std::sort(gone.begin(), gone.end()); if (r || gone != w) { std::string a, b; for (auto &x : extra) a += x.name + " "; for (auto &x : gone) b += x + " "; bad("delete", "of the files %s, deleted: %s (%ld)", a.c_str(), b.c_str(), r); return; }
        mc::outcome(w.empty() ? "nothing to delete" : "files deleted");
    }
    with_shm = true;
}
static void op_bad() {
    with_shm = false; extra = {{"DLB_cpuinfo_0", 0, S_IFREG, S_IFREG}}; for (int s = 0; s < 16; ++s) { std::vector<std::string> a; if (s & 1) a.push_back("--list"); if (s & 2) a.push_back("--delete"); if (s & 4) a.push_back("--nonsense"); if (s & 8) a.push_back("-c"); if (s && s < 4 && s != 3) continue; if (s == 8) continue;
        long r = tool(a, false); if (mc::is_bad()) return; if (r != 1 || !gone.empty()) { bad("usage", "options %#x: ended with %ld, %zu files deleted", s, r, gone.size()); return; } }
    for (auto h : {"-h", "--help", "-v", "--version"}) { long r = tool({h}, false); if (mc::is_bad()) return; if (r || out.empty() || !gone.empty()) { bad("usage", "%s ended with %ld", h, r); return; } } with_shm = true; mc::outcome("invalid options refused");
}
static void rc(const char *w, long got, long want) { if (!mc::is_bad() && got != want) bad("result", "%s returned %s, should be %s (%s)", w, errname(got), errname(want), show().c_str()); }
static bool plain(int p) { if (pending()) return false; int g = C.group[p]; for (int c = 0; c < C.ncpu; ++c) { auto &m = U.c[g][c]; if ((m.own == PID(p)) != (m.guest == PID(p)) || m.req) return false; if (m.own == PID(p) && m.st != BUSY) return false; } for (int q = 0; q < NP; ++q) if (C.group[q] == g && (U.p[q].dirty || U.p[q].stolen)) return false; return true; }
static void cb_n(int, void*) {} static void cb_set(const cpu_set_t*, void*) {} static void cb_cpu(int, void*) {}
static void op_init(int p) {
    int g = C.group[p]; U.ever |= 1u << p; topo(p, C.ncpu, C.ncpu, 1); cpu_set_t s = to_set(C.mask[p]); std::string a = fmt("--lewi --drom %s %s%s%s", C.args, C.async ? "--mode=async " : "", *C.key[p] ? "--shm-key=" : "", C.key[p]);
    rc("DLB_Init", IN(p, DLB_Init(0, &s, a.c_str())), DLB_SUCCESS); if (mc::is_bad()) return; U.p[p] = {true, false, C.mask[p], C.mask[p], 0}; for (int c = 0; c < C.ncpu; ++c) if (C.mask[p] >> c & 1) U.c[g][c] = {PID(p), PID(p), BUSY, 0}; ++U.parts[g]; U.region[p] = false;
    IN(p, (DLB_CallbackSet(dlb_callback_set_process_mask, (dlb_callback_t)cb_set, nullptr), DLB_CallbackSet(dlb_callback_enable_cpu, (dlb_callback_t)cb_cpu, nullptr), DLB_CallbackSet(dlb_callback_disable_cpu, (dlb_callback_t)cb_cpu, nullptr), 0)); if (C.async) vn_run_helpers(-1);
}
static void op_fin(int p) {
    int g = C.group[p]; rc("DLB_Finalize", IN(p, DLB_Finalize()), DLB_SUCCESS); if (mc::is_bad()) return; for (int c = 0; c < C.ncpu; ++c) if (U.c[g][c].own == PID(p)) U.c[g][c] = {0, 0, OFF, 0}; U.p[p] = Proc(); --U.parts[g]; if (!U.parts[g]) U.times[g] = 0; U.region[p] = false;
}
static void settle() { if (C.async && !mc::is_bad()) vn_run_helpers(-1); }
static void op_lend(int p, int c) { auto &m = U.c[C.group[p]][c]; rc("DLB_LendCpu", IN(p, DLB_LendCpu(c)), DLB_SUCCESS); settle(); if (m.own == PID(p)) m.st = LENT; m.guest = m.st == BUSY ? m.own : 0; if (m.st == LENT && m.req) for (int q = 0; q < NP; ++q) if (m.req >> q & 1) { m.guest = PID(q); m.req &= ~(1u << q); break; } }
static void op_borrow(int p, int c) { auto &m = U.c[C.group[p]][c]; rc("DLB_BorrowCpu", IN(p, DLB_BorrowCpu(c)), DLB_SUCCESS); settle(); m.guest = PID(p); }
static void op_acquire(int p, int c) { auto &m = U.c[C.group[p]][c]; rc("DLB_AcquireCpu", IN(p, DLB_AcquireCpu(c)), DLB_NOTED); settle(); m.req |= 1u << p; }
static void op_reclaim(int p, int c) { auto &m = U.c[C.group[p]][c]; bool used = m.guest != 0; rc("DLB_ReclaimCpu", IN(p, DLB_ReclaimCpu(c)), used ? DLB_NOTED : DLB_SUCCESS); settle(); m.st = BUSY; if (used && C.async) for (int q = 0; q < NP; ++q) if (m.guest == PID(q)) m.req |= 1u << q; if (!used || C.async) m.guest = PID(p); /* asynchronous: the guest leaves it at once, and asks for it again */ }
static void op_return(int p, int c) { auto &m = U.c[C.group[p]][c]; rc("DLB_ReturnCpu", IN(p, DLB_ReturnCpu(c)), DLB_SUCCESS); m.guest = m.own; }
/* the administrator moves CPU c from process p to q, or leaves p without it */
static void op_move(int p, int c, int q) {
    cpu_set_t s; long r; if (q < 0) { s = to_set(U.p[p].cur & ~(1UL << c)); r = IN(ADM, DLB_DROM_SetProcessMask(PID(p), &s, (dlb_drom_flags_t)0)); } else { s = to_set(U.p[q].cur | 1UL << c); r = IN(ADM, DLB_DROM_SetProcessMask(PID(q), &s, DLB_STEAL_CPUS)); }
    rc("DLB_DROM_SetProcessMask", r, DLB_SUCCESS); if (mc::is_bad()) return; U.p[p].dirty = true; U.p[p].fut = U.p[p].cur & ~(1UL << c); if (q >= 0) { U.p[p].stolen |= 1UL << c; U.p[q].dirty = true; U.p[q].fut = U.p[q].cur | 1UL << c; }
}
static void op_poll(int p) {
    rc("DLB_PollDROM_Update", IN(p, DLB_PollDROM_Update()), U.p[p].dirty ? DLB_SUCCESS : DLB_NOUPDT); if (mc::is_bad() || !U.p[p].dirty) return; int g = C.group[p]; auto &P = U.p[p];
    for (int c = 0; c < C.ncpu; ++c) { if ((P.cur & ~P.fut) >> c & 1) U.c[g][c] = {0, 0, OFF, 0}; if ((P.fut & ~P.cur) >> c & 1) U.c[g][c] = {PID(p), PID(p), BUSY, 0}; } P.cur = P.fut; P.dirty = false;
}
static void run(Cfg c, int depth) {
    C = c; memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; with_shm = true; extra.clear(); reversed = false; fail_unlink = -1; vn_capture = 0;
    for (int p = 0; p < NP; ++p) vn_spawn(PID(p)); vn_spawn(1100); vn_spawn(1101); topo(ADM, C.ncpu, C.ncpu, 1);
    std::vector<mc::Op> o; auto add = [&](const std::string &n, std::function<bool()> en, std::function<void()> f) { o.push_back({n, en, f}); };
    for (int p = 0; p < NP; ++p) if (C.mask[p]) { int g = C.group[p]; op_init(p);
        add(fmt("P%d.Finalize", p), [=]{ return U.p[p].run && plain(p); }, [=]{ op_fin(p); }); add(fmt("P%d.Init", p), [=]{ if (U.p[p].run) return false; for (int c = 0; c < C.ncpu; ++c) if ((C.mask[p] >> c & 1) && U.c[g][c].own) return false; for (auto &q : U.p) if (q.run && q.dirty && C.group[&q - U.p] == g) return false; return true; }, [=]{ op_init(p); });
        if (C.async) for (int k = 1; k < 3; ++k) add(fmt("P%d.AcquireCpus(%d)", p, k), [=]{ if (!U.p[p].run || pending()) return false; for (auto &m : U.c[g]) if (m.own && (m.st != BUSY || m.guest != m.own || m.req)) return false; return U.parts[g] > 1; }, [=]{ rc("DLB_AcquireCpus", IN(p, DLB_AcquireCpus(k)), DLB_NOTED); settle(); U.preq[p] = k; });
        if (C.barrier) add(fmt("P%d.Barrier", p), [=]{ return U.p[p].run && U.parts[g] == 1; }, [=]{ rc("DLB_Barrier", IN(p, DLB_Barrier()), DLB_SUCCESS); ++U.times[g]; });
        if (C.talp) add(fmt("P%d.RegionRegister", p), [=]{ return U.p[p].run && !U.region[p]; }, [=]{ if (!IN(p, DLB_MonitoringRegionRegister("my region"))) bad("result", "no region"); U.region[p] = true; });
        for (int k = 0; k < C.ncpu && k < 4; ++k) { auto *m = &U.c[g][k];
            add(fmt("P%d.LendCpu(%d)", p, k), [=]{ return U.p[p].run && !U.p[p].dirty && m->guest == PID(p) && !pending(); }, [=]{ op_lend(p, k); });
            add(fmt("P%d.BorrowCpu(%d)", p, k), [=]{ return U.p[p].run && !U.p[p].dirty && m->own && m->own != PID(p) && m->st == LENT && !m->guest; }, [=]{ op_borrow(p, k); });
            add(fmt("P%d.ReclaimCpu(%d)", p, k), [=]{ return U.p[p].run && !U.p[p].dirty && m->own == PID(p) && m->st == LENT; }, [=]{ op_reclaim(p, k); });
            if (!C.async) add(fmt("P%d.ReturnCpu(%d)", p, k), [=]{ return U.p[p].run && m->guest == PID(p) && m->own != PID(p) && m->st == BUSY; }, [=]{ op_return(p, k); });
            if (C.async) add(fmt("P%d.AcquireCpu(%d)", p, k), [=]{ return U.p[p].run && m->own && m->own != PID(p) && m->guest == m->own && m->st == BUSY && !m->req; }, [=]{ op_acquire(p, k); });
        }
        if (!*C.key[p] && !C.async) { add(fmt("P%d.PollDROM", p), [=]{ if (!U.p[p].run) return false; if (U.p[p].dirty) for (int c = 0; c < C.ncpu; ++c) if (((U.p[p].fut & ~U.p[p].cur) >> c & 1) && U.c[g][c].own) return false; return true; }, [=]{ op_poll(p); });
            for (int q = -1; q < 2; ++q) if (q != p) add(fmt("ADM.move(P%d,%d,%d)", p, p, q), [=]{ return U.p[p].run && plain(p) && popc(U.p[p].cur) > 1 && (U.p[p].cur >> p & 1) && (q < 0 || (U.p[q].run && plain(q))); }, [=]{ op_move(p, p, q); }); }
    }
    if (!C.async) add("ADM.attach", []{ return !(U.bars & 1); }, []{ rc("DLB_DROM_Attach", IN(ADM, DLB_DROM_Attach()), DLB_SUCCESS); U.bars |= 1; });
    for (auto &op : o) if (op.name.find("ADM.move") == 0) { auto en = op.enabled; op.enabled = [=]{ return (U.bars & 1) && en(); }; }
    size_t n = o.size();
    add("dlb_shm --list", nullptr, []{ for (int cols : {0, 1, 3, C.ncpu}) for (int env = 0; env < 2 && !mc::is_bad(); ++env) { reversed = env; op_list(cols, cols & 1, cols == 3, env ? "--lewi --drom" : nullptr); } reversed = false; });
    add("DLB_PrintShmem", nullptr, []{ for (int p = 0; p < NP; ++p) if (U.p[p].run) for (int cols : {0, 2, 64}) if (!mc::is_bad()) op_print(p, cols, cols == 2); });
    mc::Limits l; l.depth = depth; l.max_states = 3000000; for (size_t i = n; i < o.size(); ++i) l.probes.push_back(i);
    mc::explore_ops(o, []{}, l);
}
void mc_register() {
    auto J = [](const char *n, Cfg c, int d) { mc::job(n, [=]{ run(c, d + mc::level); }, 8); };
    Cfg a{4, {3, 4, 15}, {0, 0, 1}, {"", "", "01"}, "", true, false, false}; J("keys", a, 4);
    Cfg t = a; t.args = "--talp --talp-external-profiler"; t.talp = true; J("talp", t, 3);
    Cfg s = a; s.async = true; s.mask[2] = 0; J("async", s, 4);
    Cfg w = a; w.ncpu = 64; w.mask[0] = 0xffff0003UL; w.mask[1] = 0xf0UL << 32; w.mask[2] = 0; J("wide", w, 2);
    mc::job("files", []{ C = Cfg{4}; memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; vn_capture = 0; for (int i = 0; i <= TOOL; ++i) vn_spawn(1200 + i); mc::scenario("contents of the directory"); mc::begin_case("every content of the directory"); op_delete(); mc::end_case(); if (!mc::is_bad()) { mc::begin_case("every invalid set of options"); op_bad(); mc::end_case(); } }, 4);
}
