#include <algorithm>
/* DROM: process masks moved between processes by an administrator and by the processes themselves.
 * Every sequence of operations on the real code, against a machine that assigns CPUs to processes. */
#include "hn.h"
using mc::bad; using mc::fmt;
extern "C" void (*vn_sleep_hook)(void);
enum { MAXP = 4, LAU = 4, ADM = 5 };
struct Ent { bool reg, pre, dirty; Mask cur, fut, stolen; int key; bool hid; };       /* key: pid */
struct Cfg { int np, ncpu; Mask mask[MAXP]; bool retst, sync, preinit, attached, launch, tool, env; std::vector<std::function<void()>> pre; };
static Cfg C;
static struct User { Ent e[8]; Mask free; int own[8]; bool run[MAXP], ever; Mask cbmask[MAXP]; int ncb[MAXP]; bool shm, lpre, bor, child, laff; Mask lm; } U;
static int PID(int p) { return 1001 + p; }
static int PREPID = 1050;
static Ent *ent(int pid) { for (auto &e : U.e) if (e.reg && e.key == pid) return &e; return nullptr; }
static Ent *slot() { for (auto &e : U.e) if (!e.reg) return &e; return nullptr; }
static int slots() { int n = 0; for (auto &e : U.e) n += e.reg; return n; }
static Mask observed[8];        /* future masks seen by the administrator, by entry */
static std::string show() { std::string s = "free=" + mstr(U.free) + " "; for (auto &e : U.e) if (e.reg) s += fmt("%d:%s%s%s stolen=%s ", e.key, mstr(e.cur).c_str(), e.dirty ? (" ->" + mstr(e.fut)).c_str() : "", e.pre ? " preinit" : "", mstr(e.stolen).c_str()); return s; }
static void rc(const char *op, long got, long w) { if (got != w) bad("result", "%s returned %s, should be %s (%s)", op, errname(got), errname(w), show().c_str()); }
static void cb_mask(const cpu_set_t *m, void*) { U.cbmask[G.cur_proc] = from_set(m); U.ncb[G.cur_proc]++; }
static Mask query(int pid, long *e) { cpu_set_t s; CPU_ZERO(&s); *e = IN(ADM, DLB_DROM_GetProcessMask(pid, &s, (dlb_drom_flags_t)0)); return from_set(&s); }
static Mask all() { return (1UL << C.ncpu) - 1; }
/* ---- model steps */
static void m_poll_own(int p, Mask m) { for (int c = 0; c < C.ncpu; ++c) if (m >> c & 1) U.own[c] = PID(p); else if (U.own[c] == PID(p)) U.own[c] = 0; }
static void m_poll(int p) { Ent *e = ent(PID(p)); if (!e || !e->dirty) return; e->cur = e->fut; e->dirty = false; m_poll_own(p, e->cur); }
/* the CPUs in m leave e: to a process they were stolen from, or to the free ones. Among several, the implementation chooses */
static void m_release(Ent *e, Mask m, bool ret) {
    for (int c = 0; c < C.ncpu; ++c) if (m >> c & 1) {
        Ent *to = nullptr; int cand = 0;
        if (ret) for (auto &v : U.e) if (v.reg && (v.stolen >> c & 1)) { ++cand; long er; if (!to) to = &v; else if (query(v.key, &er) >> c & 1) to = &v; }
        if (to) { to->fut |= 1UL << c; to->stolen &= ~(1UL << c); to->dirty = true; mc::outcome("CPU returned to its previous owner"); } else U.free |= 1UL << c;
        e->fut &= ~(1UL << c); e->dirty = true;
    }
}
static int pollers, nhook;             /* processes that poll during the waits of a synchronous operation */
static void hook() { ++nhook; int cp = G.cur_proc, ct = G.cur_thread; (void)cp; (void)ct; for (int p = 0; p < C.np; ++p) if ((pollers >> p & 1) && U.run[p]) IN(p, DLB_PollDROM_Update()); }
/* returns the expected error; steals, acquires and releases. amb: the outcome depends on the order of the victims */
static int m_set(Ent *e, Mask mask, bool ret, bool sync, bool *amb) {
    *amb = false;
    Mask acq = mask & U.free, steal = mask & ~U.free & ~e->cur, rel = e->cur & ~mask;
    if (steal) {
        Mask ok = 0; bool dirty = false;
        for (auto &v : U.e) if (v.reg && !v.hid && &v != e && (v.cur & steal)) { if (v.dirty) dirty = true; else ok |= v.cur & steal; }
        if (ok != steal) return DLB_ERR_PERM;
        if (dirty) *amb = true;
        Ent bak[8]; memcpy(bak, U.e, sizeof bak);
        if (*amb) return DLB_SUCCESS;
        for (auto &v : U.e) if (v.reg && &v != e && !v.dirty && (v.cur & steal)) { v.fut = v.cur & ~steal; v.stolen |= v.cur & steal; v.dirty = true; }
        if (sync) {
            for (int p = 0; p < C.np; ++p) if ((pollers >> p & 1) && U.run[p]) m_poll(p);
            bool done = true; for (auto &v : U.e) if (v.reg && &v != e && (v.cur & steal)) done = false;
            if (!done) { for (int i = 0; i < 8; ++i) { Ent &v = U.e[i]; if (!v.reg) continue; Mask back = v.stolen & ~bak[i].stolen & steal; v.fut |= back; v.stolen &= ~back; if (back) v.dirty = v.cur != v.fut; } mc::outcome("steal timed out"); return DLB_ERR_TIMEOUT; }
        }
        e->fut |= steal; e->stolen &= ~steal; e->dirty = true; mc::outcome("steal");
    }
    if (acq) { U.free &= ~acq; e->fut |= acq; e->stolen &= ~acq; e->dirty = true; mc::outcome("acquire free"); }
    m_release(e, rel, ret);
    return DLB_SUCCESS;
}
/* ---- invariants: what the administrator sees */
static void invariant() {
    int pids[16], n = 0; long r = IN(ADM, DLB_DROM_GetPidList(pids, &n, 16)); if (mc::is_bad()) return;
    if (C.attached) { if (r) { bad("pidlist", "GetPidList returned %s", errname(r)); return; }
        if (n != slots()) { bad("pidlist", "%d processes registered, should be %d (%s)", n, slots(), show().c_str()); return; }
        for (int i = 0; i < n; ++i) if (!ent(pids[i])) { bad("pidlist", "process %d is registered and should not (%s)", pids[i], show().c_str()); return; } }
    Mask sum = 0;
    for (auto &e : U.e) if (e.reg) {
        long er; Mask m = query(e.key, &er); if (mc::is_bad()) return;
        if (er) { bad("mask", "mask of process %d: %s", e.key, errname(er)); return; }
        if (m != (e.dirty ? e.fut : e.cur)) { bad("mask", "mask of process %d is %s, should be %s (%s)", e.key, mstr(m).c_str(), mstr(e.dirty ? e.fut : e.cur).c_str(), show().c_str()); return; }
        if (m & sum) { bad("overlap", "CPUs %s belong to two processes (%s)", mstr(m & sum).c_str(), show().c_str()); return; } sum |= m;
    }
    if (sum & U.free) { bad("overlap", "CPUs %s are free and assigned (%s)", mstr(sum & U.free).c_str(), show().c_str()); return; }
    if ((sum | U.free) != all()) bad("lost", "CPUs %s belong to nobody and are not free (%s)", mstr(all() & ~(sum | U.free)).c_str(), show().c_str());
    if (!C.attached && !U.lpre && !slots() && vn_shm_count()) bad("leftover", "%d shared memories left without processes", vn_shm_count());
}
static void fresh() { if (!slots() && !C.attached) { U.free = all(); for (int c = 0; c < 8; ++c) if (!(U.lpre && U.own[c] == PREPID)) U.own[c] = 0; } }
/* ---- operations */
static void op_init(int p, Mask mask, bool pre) {
    topo(p, C.ncpu, C.ncpu, 1); std::string a = "--drom --quiet"; if (C.retst) a += " --debug-opts=return-stolen"; if (pre) a += fmt(" --preinit-pid=%d", PREPID);
    if (pre && C.tool) a = "--quiet"; if (pre && C.env) a = "--drom --quiet";
    cpu_set_t s = to_set(mask); long r = IN(p, DLB_Init(0, &s, a.c_str())); if (mc::is_bad()) return;
    int want = DLB_SUCCESS; Ent *q = pre ? ent(PREPID) : nullptr; Ent sav[8]; memcpy(sav, U.e, sizeof sav); Mask savf = U.free; Mask got = mask;
    fresh();
    if (!q) {
        if (!slot() || slots() >= C.ncpu) want = DLB_ERR_NOMEM; else if (mask & ~U.free) want = DLB_ERR_PERM; else { Ent *e = slot(); *e = Ent{true, false, false, mask, mask, 0, PID(p)}; U.free &= ~mask; }
    } else {
        Mask pm = q->dirty ? q->fut : q->cur;
        if (mask == pm) { q->key = PID(p); q->pre = false; mc::outcome("preinit A"); }
        else if (q->dirty) want = DLB_ERR_PDIRTY;
        else if ((mask & pm) == pm) { if (mask & ~pm & ~U.free) want = DLB_ERR_PERM; else { U.free &= ~mask; q->key = PID(p); q->pre = false; q->cur = q->fut = mask; mc::outcome("preinit B"); } }
        else if (slots() >= C.ncpu) want = DLB_ERR_NOMEM;
        else if ((mask & pm) == mask || !(mask & ~pm & ~U.free)) { Ent *e = slot(); U.free &= ~mask; *e = Ent{true, false, false, mask, mask, 0, PID(p)}; q->cur &= ~mask; q->fut &= ~mask; mc::outcome((mask & pm) == mask ? "preinit C" : "preinit D"); }
        else want = DLB_ERR_PERM;
    }
    if (want == DLB_SUCCESS) {
        bool perm = false; for (int c = 0; c < C.ncpu; ++c) if ((got >> c & 1) && U.own[c] && U.own[c] != PID(p) && !(pre && U.own[c] == PREPID)) perm = true;
        if (perm) { want = DLB_ERR_PERM; Ent *e = ent(PID(p)); m_release(e, e->dirty ? e->fut : e->cur, false); memset(e, 0, sizeof *e); for (int c = 0; c < C.ncpu; ++c) if (U.own[c] == PID(p)) U.own[c] = 0; }
        else for (int c = 0; c < C.ncpu; ++c) if (got >> c & 1) U.own[c] = PID(p);
    }
    (void)sav; (void)savf;
    rc("DLB_Init", r, want); if (mc::is_bad()) return;
    if (want == DLB_SUCCESS) { U.run[p] = true; IN(p, DLB_CallbackSet(dlb_callback_set_process_mask, (dlb_callback_t)cb_mask, nullptr)); }
    else { U.run[p] = false; IN(p, DLB_Finalize()); }
}
static void m_finalize(int p) {
    Ent *e = ent(PID(p)); Ent old = *e; e->reg = false; e->stolen = 0; Mask m = old.dirty ? old.fut : old.cur; m_release(e, m, C.tool && p == 2 ? U.bor : C.retst); memset(e, 0, sizeof *e);
    for (int c = 0; c < C.ncpu; ++c) if (U.own[c] == PID(p)) U.own[c] = 0;
    U.run[p] = false; fresh();
}
static void op_finalize(int p) { long r = IN(p, DLB_Finalize()); if (mc::is_bad()) return; rc("DLB_Finalize", r, DLB_SUCCESS); m_finalize(p); }
static void op_poll(int p, bool upd) {
    Ent *e = ent(PID(p)); bool d = e->dirty; Mask f = e->fut; U.ncb[p] = 0; int n = -1; cpu_set_t s; CPU_ZERO(&s);
    long r = upd ? IN(p, DLB_PollDROM_Update()) : IN(p, DLB_PollDROM(&n, &s)); if (mc::is_bad()) return;
    rc("PollDROM", r, d ? DLB_SUCCESS : DLB_NOUPDT); m_poll(p);
    if (!upd && d && (from_set(&s) != f || n != popc(f))) bad("poll", "PollDROM gave %d CPUs %s, should be %s", n, mstr(from_set(&s)).c_str(), mstr(f).c_str());
    if (upd && d && (U.ncb[p] != 1 || U.cbmask[p] != f)) bad("poll", "PollDROM_Update called the set_process_mask callback %d times with %s, should be once with %s", U.ncb[p], mstr(U.cbmask[p]).c_str(), mstr(f).c_str());
    if ((!upd || !d) && U.ncb[p]) bad("poll", "unexpected set_process_mask callback");
    U.ncb[p] = 0; U.cbmask[p] = 0;
}
static void op_get_self(int p, bool zero) {
    Ent *e = ent(PID(p)); cpu_set_t s; CPU_ZERO(&s); long r = IN(p, DLB_DROM_GetProcessMask(zero ? 0 : PID(p), &s, (dlb_drom_flags_t)0)); if (mc::is_bad()) return;
    rc("GetProcessMask(self)", r, e->dirty ? DLB_NOTED : DLB_SUCCESS); m_poll(p);
    if (from_set(&s) != e->cur) bad("getmask", "GetProcessMask gave %s, should be %s", mstr(from_set(&s)).c_str(), mstr(e->cur).c_str());
}
static int finalizer;           /* process that finalizes during the wait, instead of polling */
static void m_finalize(int p);
static void fin_hook() { ++nhook; if (nhook == 1) IN(finalizer, DLB_Finalize()); }
static void op_get_sync(int p, int poll, bool fin) {
    Ent *e = ent(PID(p)); cpu_set_t s; CPU_ZERO(&s); pollers = poll; nhook = 0; finalizer = p; vn_sleep_hook = fin ? fin_hook : hook;
    long r = IN(ADM, DLB_DROM_GetProcessMask(PID(p), &s, DLB_SYNC_QUERY)); vn_sleep_hook = nullptr; if (mc::is_bad()) return;
    int want = !e->dirty ? DLB_SUCCESS : fin ? DLB_ERR_NOPROC : (poll >> p & 1) ? DLB_SUCCESS : DLB_ERR_TIMEOUT; rc("GetProcessMask(sync)", r, want); mc::outcome(fmt("synchronous query: %s", errname(want)));
    if (nhook) { if (fin) m_finalize(p); else for (int q = 0; q < C.np; ++q) if ((poll >> q & 1) && U.run[q]) m_poll(q); }
    for (int q = 0; q < MAXP; ++q) { U.ncb[q] = 0; U.cbmask[q] = 0; }
    if (want == DLB_SUCCESS && from_set(&s) != e->cur) bad("getmask", "synchronous GetProcessMask gave %s, should be %s", mstr(from_set(&s)).c_str(), mstr(e->cur).c_str());
}
/* the same operations by other means: the command-line tool */
static std::function<long(int, Mask, int)> via_set; static std::function<long(Mask, int)> via_pre; static std::function<long(int)> via_post;
static void op_set(int who, int pid, Mask mask, int flags, int poll) {
    Ent *e = ent(pid); bool self = who < MAXP; Ent sav[8]; User bak = U; memcpy(sav, U.e, sizeof sav); cpu_set_t s = to_set(mask); pollers = poll; nhook = 0; if (self) U.ncb[who] = 0;
    vn_sleep_hook = poll ? hook : nullptr;
    long r = via_set ? via_set(pid, mask, flags) : in_proc(who, [&]() -> long { return DLB_DROM_SetProcessMask(self && (mask & 1) ? 0 : pid, &s, (dlb_drom_flags_t)flags); }); vn_sleep_hook = nullptr; if (mc::is_bad()) return;
    bool ret = flags & DLB_RETURN_STOLEN, sync = (flags & DLB_SYNC_QUERY) && !self; int want; bool amb = false; (void)bak;
    if (!e) want = DLB_ERR_NOPROC;
    else if (self && e->dirty && mask == e->fut) want = DLB_SUCCESS;
    else if (e->dirty) want = DLB_ERR_PDIRTY;
    else { want = m_set(e, mask, ret, sync, &amb);
        if (amb) { if (r == DLB_ERR_PERM) want = DLB_ERR_PERM; else { for (auto &v : U.e) v.hid = v.reg && v.dirty && &v != e; bool a2; want = m_set(e, mask, ret, sync, &a2); for (auto &v : U.e) v.hid = false; } }
        if (want == DLB_SUCCESS && sync) { if (nhook) for (int p = 0; p < C.np; ++p) if ((poll >> p & 1) && U.run[p]) m_poll(p); if (e->dirty) { want = DLB_ERR_TIMEOUT; mc::outcome("target did not poll"); } } }
    if (self && want == DLB_SUCCESS && !(flags & DLB_NO_SYNC)) {
        e->cur = e->fut; e->dirty = false; m_poll_own(who, e->cur);
        if (U.ncb[who] != 1 || U.cbmask[who] != mask) bad("self", "the set_process_mask callback was called %d times with %s, should be once with %s", U.ncb[who], mstr(U.cbmask[who]).c_str(), mstr(mask).c_str());
    } else if (self && U.ncb[who]) bad("self", "unexpected set_process_mask callback");
    for (int p = 0; p < MAXP; ++p) { U.ncb[p] = 0; U.cbmask[p] = 0; }
    rc("SetProcessMask", r, want);
}
static void op_preinit(Mask mask, int flags, int poll) {
    cpu_set_t s = to_set(mask); pollers = poll; nhook = 0; vn_sleep_hook = poll ? hook : nullptr;
    long r = via_pre ? via_pre(mask, flags) : IN(ADM, DLB_DROM_PreInit(PREPID, &s, (dlb_drom_flags_t)flags, nullptr)); vn_sleep_hook = nullptr; memset(G.proc[ADM].env, 0, sizeof G.proc[ADM].env); if (mc::is_bad()) return;
    int want = DLB_SUCCESS; bool steal = flags & DLB_STEAL_CPUS; 
    if (ent(PREPID)) want = DLB_ERR_INIT; else if (slots() >= C.ncpu) want = DLB_ERR_NOMEM;
    else {
        Ent *e = slot(); *e = Ent{true, true, false, 0, 0, 0, PREPID};
        if (!steal) { if (mask & ~U.free) want = DLB_ERR_PERM; else { U.free &= ~mask; e->fut |= mask; } }
        else { bool amb; want = m_set(e, mask, flags & DLB_RETURN_STOLEN, flags & DLB_SYNC_QUERY, &amb);
            if (amb) { if (r == DLB_ERR_PERM) want = DLB_ERR_PERM; else { for (auto &v : U.e) v.hid = v.reg && v.dirty && &v != e; bool a2; want = m_set(e, mask, flags & DLB_RETURN_STOLEN, flags & DLB_SYNC_QUERY, &a2); for (auto &v : U.e) v.hid = false; } } }
        if (want == DLB_SUCCESS && !steal) for (int c = 0; c < C.ncpu; ++c) if ((mask >> c & 1) && U.own[c] && U.own[c] != PREPID) { want = DLB_ERR_PERM; U.free |= mask; break; }
        if (want) memset(e, 0, sizeof *e); else { e->cur = e->fut = mask; e->dirty = false; for (int c = 0; c < C.ncpu; ++c) if (mask >> c & 1) U.own[c] = PREPID; }
    }
    for (int p = 0; p < MAXP; ++p) { U.ncb[p] = 0; U.cbmask[p] = 0; }
    rc("PreInit", r, want);
}
/* a launcher that reserves the CPUs of its children with DLB_PreInit, and gives back with DLB_Finalize what they did not take */
static long l_pre(Mask mask) {
    cpu_set_t s = to_set(mask); topo(LAU, C.ncpu, C.ncpu, 1); memset(G.proc[LAU].env, 0, sizeof G.proc[LAU].env);
    vn_setenv(LAU, "DLB_ARGS", C.retst ? "--quiet --debug-opts=return-stolen" : "--quiet"); return IN(LAU, DLB_PreInit(&s, nullptr));
}
static std::function<long()> via_lpre, via_lfin;
static void op_lpre(Mask mask) {
    fresh(); long r = via_lpre ? via_lpre() : l_pre(mask); memset(G.proc[LAU].env, 0, sizeof G.proc[LAU].env); if (mc::is_bad()) return;
    int want = DLB_SUCCESS; if (U.lpre) want = DLB_ERR_INIT; else { U.lpre = true;
        if (ent(PREPID)) want = DLB_ERR_INIT; else if (slots() >= C.ncpu) want = DLB_ERR_NOMEM; else if (mask & ~U.free) want = DLB_ERR_PERM;
        else for (int c = 0; c < C.ncpu; ++c) if ((mask >> c & 1) && U.own[c]) want = DLB_ERR_PERM;
        if (!want) { Ent *e = slot(); *e = Ent{true, true, false, mask, mask, 0, PREPID}; U.free &= ~mask; for (int c = 0; c < C.ncpu; ++c) if (mask >> c & 1) U.own[c] = PREPID; mc::outcome("the launcher reserved CPUs"); } }
    rc("DLB_PreInit", r, want);
}
static void op_lfin() {
    long r = via_lfin ? via_lfin() : IN(LAU, DLB_Finalize()); if (mc::is_bad()) return; rc("DLB_Finalize of the launcher", r, U.lpre ? DLB_SUCCESS : DLB_NOUPDT); if (mc::is_bad()) return; if (U.lpre) for (int c = 0; c < C.ncpu; ++c) if (U.own[c] == PREPID) U.own[c] = 0; U.lpre = false; Ent *e = ent(PREPID); if (!e) return;
    mc::outcome("the launcher released CPUs"); Ent old = *e; e->reg = false; m_release(e, old.dirty ? old.fut : old.cur, C.retst); memset(e, 0, sizeof *e); for (int c = 0; c < C.ncpu; ++c) if (U.own[c] == PREPID) U.own[c] = 0; fresh();
}
/* one process that reserves mask, uses sub, and finalizes both */
static void op_lself(Mask mask, Mask sub) {
    fresh(); for (int c = 0; c < C.ncpu; ++c) if ((mask >> c & 1) && (U.own[c] || !(U.free >> c & 1))) return;
    if (slots() + 2 > C.ncpu) return;
    long r = l_pre(mask); if (mc::is_bad()) return; rc("DLB_PreInit", r, DLB_SUCCESS); if (mc::is_bad()) return;
    cpu_set_t s = to_set(sub); r = IN(LAU, DLB_Init(0, &s, "--drom")); if (mc::is_bad()) return; rc("DLB_Init of the launcher", r, DLB_SUCCESS); if (mc::is_bad()) return;
    long er; Mask m = query(PREPID, &er); if (mc::is_bad()) return; if (er || (m != sub && m != (mask & ~sub))) { bad("mask", "mask of the launcher is %s (%s)", mstr(m).c_str(), errname(er)); return; }
    for (int i = 0; i < 2; ++i) { r = IN(LAU, DLB_Finalize()); if (mc::is_bad()) return; rc("DLB_Finalize of the launcher", r, DLB_SUCCESS); if (mc::is_bad()) return; }
    Ent t{}; U.free &= ~mask; m_release(&t, mask, C.retst); fresh();
    memset(G.proc[LAU].env, 0, sizeof G.proc[LAU].env); mc::outcome("a process reserved and used CPUs");
}
static void op_postfin(int flags) {
    long r = via_post ? via_post(flags) : IN(ADM, DLB_DROM_PostFinalize(PREPID, (dlb_drom_flags_t)flags)); if (mc::is_bad()) return;
    Ent *e = ent(PREPID); rc("PostFinalize", r, e ? DLB_SUCCESS : DLB_ERR_NOPROC); if (!e || mc::is_bad()) return;
    Ent old = *e; e->reg = false; m_release(e, old.dirty ? old.fut : old.cur, flags & DLB_RETURN_STOLEN); memset(e, 0, sizeof *e); for (int c = 0; c < C.ncpu; ++c) if (U.own[c] == PREPID) U.own[c] = 0;
}
extern "C" void *vn_malloc(size_t); extern "C" void vn_free(void*);
static void quiet(int slot) { memset(G.proc[slot].env, 0, sizeof G.proc[slot].env); vn_setenv(slot, "DLB_ARGS", "--quiet"); }
/* an environment for the child that is not the one of the caller: only what the child needs is changed in it */
static const char *envv[] = {"DLB_ARGS=", "DLB_ARGS=--lewi=no", "DLB_ARGS=--preinit-pid=77 --lewi=no", "XDLB_ARGS=1", "DLB_ARGSX=2", "OMP_NUM_THREADS=64", "OMP_NUM_THREADSX=3", "A=--x y"};
static void op_env(bool self, const std::vector<int> &in, Mask m, int flags, Mask use) {
    int slot = self ? LAU : ADM; char **env = nullptr; long er = 0; cpu_set_t s = to_set(m); quiet(slot); if (self && std::count(in.begin(), in.end(), 2)) vn_setenv(slot, "DLB_ARGS", "--quiet --preinit-pid=77"); auto cur = G.proc[slot].env; std::string own((char*)cur, sizeof G.proc[slot].env);
    IN(slot, ({ env = (char**)vn_malloc((in.size() + 1) * sizeof(char*)); for (size_t i = 0; i < in.size(); ++i) { env[i] = (char*)vn_malloc(strlen(envv[in[i]]) + 1); strcpy(env[i], envv[in[i]]); } env[in.size()] = nullptr; 0; })); if (mc::is_bad()) return;
    auto call = [&]() -> long { long r = self ? IN(LAU, DLB_PreInit(&s, &env)) : IN(ADM, DLB_DROM_PreInit(PREPID, &s, (dlb_drom_flags_t)flags, &env));
        if (!mc::is_bad() && own != std::string((char*)cur, sizeof G.proc[slot].env)) bad("environment", "the environment of the caller was modified"); return r; };
    if (self) { topo(LAU, C.ncpu, C.ncpu, 1); via_lpre = call; op_lpre(m); via_lpre = nullptr; } else { via_pre = [&](Mask, int) { return er = call(); }; op_preinit(m, flags, 0); via_pre = nullptr; } if (mc::is_bad()) return;
    std::vector<std::string> out; IN(slot, ({ for (char **e = env; *e; ++e) { out.push_back(*e); vn_free(*e); } vn_free(env); 0; })); if (mc::is_bad()) return;
    Ent *e = ent(PREPID); std::string args, orig; size_t k = 0; bool had = false;
    for (; k < in.size(); ++k) { const char *v = envv[in[k]]; std::string o = k < out.size() ? out[k] : "(nothing)", w = v;
        if (!strncmp(v, "DLB_ARGS=", 9)) { had = true; orig = v + 9; args = o.substr(0, w.size()) == w ? o.substr(9) : ""; if (args.empty()) { bad("environment", "'%s' became '%s'", v, o.c_str()); return; } continue; }
        if (!strncmp(v, "OMP_NUM_THREADS=", 16) && !self) w = fmt("OMP_NUM_THREADS=%d", popc(m));
        if (o != w) { bad("environment", "'%s' became '%s', should be '%s'", v, o.c_str(), w.c_str()); return; } }
    if (!had) { if (out.size() != k + 1 || out[k].compare(0, 9, "DLB_ARGS=")) { bad("environment", "DLB_ARGS is not in the environment of the child"); return; } args = out[k].substr(9); ++k; }
    if (out.size() != k) { bad("environment", "the environment has %zu variables, should have %zu", out.size(), k); return; }
    if (!e) { if (self) op_lfin(); return; }
    int ch = C.np - 1; memset(G.proc[ch].env, 0, sizeof G.proc[ch].env); vn_setenv(ch, "DLB_ARGS", args.c_str()); op_init(ch, use, true); mc::outcome("child inherits through its environment"); memset(G.proc[ch].env, 0, sizeof G.proc[ch].env); if (mc::is_bad()) return; invariant(); if (mc::is_bad()) return;
    if (U.run[ch]) op_finalize(ch); if (mc::is_bad()) return; if (self) op_lfin(); else op_postfin(0);
}
static void op_recover(int pid) {
    long r = IN(ADM, DLB_DROM_RecoverStolenCpus(pid)); if (mc::is_bad()) return;
    Ent *e = ent(pid); if (!e) { rc("RecoverStolenCpus", r, DLB_ERR_NOPROC); return; }
    if (!e->stolen) { rc("RecoverStolenCpus", r, DLB_NOUPDT); return; }
    rc("RecoverStolenCpus", r, DLB_SUCCESS);
    Mask m = e->stolen & U.free; if (m) { U.free &= ~m; e->fut |= m; e->stolen &= ~m; e->dirty = true; mc::outcome("recovered"); }
}
static void erun(Cfg c, int depth, int len) {
    C = c; memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; vn_sleep_hook = nullptr; U.free = all();
    for (int p = 0; p < C.np; ++p) vn_spawn(PID(p)); while (vn_spawn(G.nprocs == LAU ? PREPID : 1100 + G.nprocs) < ADM) {}
    topo(ADM, C.ncpu, C.ncpu, 1); IN(ADM, DLB_DROM_Attach()); std::vector<mc::Op> o; auto add = [&](const std::string &n, std::function<bool()> en, std::function<void()> f) { o.push_back({n, en, f}); };
    op_init(0, 1, false); int nv = sizeof envv / sizeof *envv; std::vector<std::vector<int>> seqs{{}};
    for (size_t i = 0; i < seqs.size(); ++i) if ((int)seqs[i].size() < len) for (int v = 0; v < nv; ++v) { auto q = seqs[i]; bool dup = false; for (int x : q) dup |= x == v || (x < 3 && v < 3); if (dup) continue; q.push_back(v); seqs.push_back(q); }
    for (auto &q : seqs) { std::string n; for (int v : q) n += std::string(n.empty() ? "" : "; ") + envv[v]; for (int self = 0; self < 2; ++self) for (Mask m : {2UL, 3UL, 6UL}) for (Mask u : {2UL, 6UL}) for (int f = 0; f < (self ? 1 : 3); ++f) { int fl = f == 1 ? (int)DLB_STEAL_CPUS : f == 2 ? (int)(DLB_STEAL_CPUS | DLB_RETURN_STOLEN) : 0; if (f && (m != 3 || u != 2)) continue;
        add(fmt("%s(%s%s, {%s}), child: Init(%s), Finalize, %s", self ? "PreInit" : "DROM_PreInit", mstr(m).c_str(), f ? ", steal" : "", n.c_str(), mstr(u).c_str(), self ? "Finalize" : "PostFinalize"), nullptr, [=]{ op_env(self, q, m, fl, u); }); } }
    add("P0.PollUpdate", []{ return U.run[0]; }, []{ op_poll(0, true); }); add("P0.Finalize", []{ return U.run[0]; }, []{ op_finalize(0); }); add("P0.Init({0})", []{ return !U.run[0]; }, []{ op_init(0, 1, false); });
    mc::Limits l; l.depth = depth; l.max_states = 3000000; mc::explore_ops(o, invariant, l);
}
static void run(Cfg c, int depth) {
    C = c; memset(&U, 0, sizeof U); vn_user_ptr = &U; vn_user_size = sizeof U; vn_sleep_hook = nullptr; U.free = all();
    for (int p = 0; p < C.np; ++p) vn_spawn(PID(p)); while (vn_spawn(G.nprocs == LAU && C.launch ? PREPID : 1100 + G.nprocs) < ADM) {}
    topo(ADM, C.ncpu, C.ncpu, 1); if (C.attached) IN(ADM, DLB_DROM_Attach());
    if (C.launch) C.preinit = true;
    int nrun = C.preinit ? C.np - 1 : C.np;
    for (int p = 0; p < nrun && !mc::is_bad(); ++p) if (C.mask[p]) op_init(p, C.mask[p], false);
    for (auto &f : C.pre) { f(); if (mc::is_bad()) break; }
    std::vector<mc::Op> o;
    auto add = [&](const std::string &n, std::function<bool()> en, std::function<void()> f) { o.push_back({n, en, f}); };
    std::vector<Mask> masks; for (Mask m = 1; m <= all(); ++m) if (C.ncpu <= 3 || popc(m) <= 3) masks.push_back(m);
    auto F = [](int f) { return std::string(f & DLB_RETURN_STOLEN ? ",RETURN_STOLEN" : "") + (f & DLB_SYNC_QUERY ? ",SYNC" : "") + (f & DLB_NO_SYNC ? ",NO_SYNC" : "") + (f & DLB_STEAL_CPUS ? ",STEAL" : ""); };
    for (int p = 0; p < C.np; ++p) {
        auto on = [p] { return U.run[p]; };
        add(fmt("P%d.Poll", p), on, [=]{ op_poll(p, false); }); add(fmt("P%d.PollUpdate", p), on, [=]{ op_poll(p, true); });
        add(fmt("P%d.GetMask(%s)", p, p ? "pid" : "0"), on, [=]{ op_get_self(p, p == 0); });
        if (C.sync) { for (int po : {0, 1 << p}) add(fmt("A.GetMask(P%d,SYNC) polling %d", p, po), on, [=]{ op_get_sync(p, po, false); }); add(fmt("A.GetMask(P%d,SYNC) while it finalizes", p), on, [=]{ op_get_sync(p, 0, true); }); }
        add(fmt("P%d.Finalize", p), on, [=]{ op_finalize(p); });
        if (C.preinit && p == C.np - 1) for (Mask m : masks) add(fmt("P%d.Init(%s, preinit)", p, mstr(m).c_str()), [p]{ return !U.run[p]; }, [=]{ op_init(p, m, true); });
        else add(fmt("P%d.Init(%s)", p, mstr(C.mask[p] ? C.mask[p] : 1).c_str()), [p]{ return !U.run[p]; }, [=]{ op_init(p, C.mask[p] ? C.mask[p] : 1, false); });
        for (Mask m : masks) {
            for (int f : C.sync ? std::vector<int>{0} : std::vector<int>{0, (int)DLB_RETURN_STOLEN, (int)DLB_NO_SYNC}) { if (C.preinit && f) continue; add(fmt("P%d.Set(self,%s%s)", p, mstr(m).c_str(), F(f).c_str()), on, [=]{ op_set(p, PID(p), m, f, 0); }); }
            if (C.sync) for (int po = 0; po < 1 << C.np; ++po) add(fmt("A.Set(P%d,%s,SYNC) polling %d", p, mstr(m).c_str(), po), on, [=]{ op_set(ADM, PID(p), m, DLB_SYNC_QUERY, po); });
            for (int f : {0, (int)DLB_RETURN_STOLEN}) { if (f && (C.sync || C.preinit)) continue; add(fmt("A.Set(P%d,%s%s)", p, mstr(m).c_str(), F(f).c_str()), on, [=]{ op_set(ADM, PID(p), m, f, 0); }); }
        }
        if (C.attached) add(fmt("A.Recover(P%d)", p), on, [=]{ op_recover(PID(p)); });
    }
    if (C.launch) {
        for (Mask m : masks) { add(fmt("L.PreInit(%s)", mstr(m).c_str()), nullptr, [=]{ op_lpre(m); });
            add(fmt("A.Set(preinit,%s)", mstr(m).c_str()), []{ return !!ent(PREPID); }, [=]{ op_set(ADM, PREPID, m, 0, 0); });
            for (Mask n : masks) if (n && (n & m) == n) add(fmt("L.PreInit(%s), Init(%s), Finalize, Finalize", mstr(m).c_str(), mstr(n).c_str()), []{ return !U.lpre && !ent(PREPID); }, [=]{ op_lself(m, n); }); }
        add("L.Finalize", nullptr, [=]{ op_lfin(); });
    } else if (C.preinit) {
        for (Mask m : masks) { for (int f : {0, (int)DLB_STEAL_CPUS}) add(fmt("A.PreInit(%s%s)", mstr(m).c_str(), F(f).c_str()), nullptr, [=]{ op_preinit(m, f, 0); });
            if (C.sync) for (int po : {0, 1, (1 << C.np) - 1}) add(fmt("A.PreInit(%s,STEAL,SYNC) polling %d", mstr(m).c_str(), po), nullptr, [=]{ op_preinit(m, DLB_STEAL_CPUS | DLB_SYNC_QUERY, po); });
            add(fmt("A.Set(preinit,%s)", mstr(m).c_str()), []{ return !!ent(PREPID); }, [=]{ op_set(ADM, PREPID, m, 0, 0); }); }
        for (int f : {0, (int)DLB_RETURN_STOLEN}) add("A.PostFinalize" + F(f), nullptr, [=]{ op_postfin(f); });
    }
    mc::Limits l; l.depth = depth; l.max_states = 3000000;
    for (int i = 0; i < (int)o.size(); ++i) if (o[i].name.find("Recover") != o[i].name.npos || o[i].name.find("Finalize") != o[i].name.npos || o[i].name.find(".Poll(") != o[i].name.npos) l.probes.push_back(i);
    mc::explore_ops(o, invariant, l);
}
void mc_register() {
    auto J = [](const char *n, Cfg c, int d) { mc::job(n, [=]{ run(c, d + mc::level); }, 8); };
    Cfg a{}; a.np = 2; a.ncpu = 3; a.mask[0] = 3; a.mask[1] = 4; a.attached = true; J("set.2p", a, 4);
    Cfg f = a; f.mask[0] = 1; J("set.2p.free", f, 4); f.attached = false; J("set.unattached", f, 4);
    auto set = [](int who, int p, Mask m, int f = 0) { return [=]{ op_set(who, PID(p), m, f, 0); }; }; auto poll = [](int p) { return [=]{ op_poll(p, true); }; };
    Cfg st = a; st.pre = {set(ADM, 1, 6), poll(0), poll(1)}; J("set.2p.stolen", st, 4); st.pre.push_back(set(ADM, 1, 4)); st.pre.push_back(poll(1)); J("set.2p.given-up", st, 4);
    Cfg r = a; r.retst = true; J("set.retst", r, 4);
    Cfg t = a; t.np = 3; t.ncpu = 3; t.mask[0] = 1; t.mask[1] = 2; t.mask[2] = 4; J("set.3p", t, 3); t.retst = true; J("set.3p.retst", t, 3);
    Cfg s = a; s.sync = true; J("sync.2p", s, 2); Cfg s3 = t; s3.sync = true; J("sync.3p", s3, 2);
    Cfg p = a; p.np = 3; p.ncpu = 4; p.mask[0] = 3; p.mask[1] = 4; p.preinit = true; J("pre.3p", p, 2); p.retst = true; J("pre.retst", p, 2);
    Cfg p1 = a; p1.np = 2; p1.ncpu = 3; p1.mask[0] = 3; p1.preinit = true; J("pre.2p", p1, 3); p1.sync = true; J("pre.sync", p1, 2);
    Cfg en = a; en.np = 2; en.ncpu = 3; en.env = true; mc::job("env", [=]{ erun(en, 2, 1 + mc::level); }, 8);
    Cfg l = a; l.np = 2; l.ncpu = 3; l.mask[0] = 3; l.launch = true; J("launch.2p", l, 2); l.np = 3; l.ncpu = 4; l.mask[0] = 1; l.mask[1] = 2; l.attached = false; J("launch.unattached", l, 1); l.retst = true; J("launch.retst", l, 1);
}
