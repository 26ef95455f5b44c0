#include "mc.h"
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
namespace mc {
std::vector<Job> jobs; bool thorough = false; int level = 0;
void job(const std::string &n, std::function<void()> b, int w) { jobs.push_back({n, b, w}); }
std::string fmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

static std::string cur_sig, cur_msg;
void bad(const char *sig, const char *f, ...) {
    if (!cur_sig.empty()) return;
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    cur_sig = sig; cur_msg = b;
}
bool is_bad() { return !cur_sig.empty(); }

struct Viol { std::string sig, msg, path; };
static std::vector<Viol> viols; static std::map<std::string, long> known_hits;
static std::vector<std::string> known;         /* signatures listed as known findings */
static std::map<std::string, long> outcomes;
static long n_states = 0, n_trans = 0, n_evals = 0, n_nontrivial = 0, n_exec = 0, n_ends = 0; static int max_depth = 0;
static std::set<uint64_t> distinct_keys; static bool truncated = false; static std::vector<std::string> samples, bounds;
static std::string replay; static bool replaying = false; static std::string replay_name; static std::string cur_job;
void outcome(const std::string &o) { outcomes[o]++; }
void eval(bool nt, uint64_t key) { n_evals++; if (nt) { if (key) distinct_keys.insert(key); else n_nontrivial++; } }
void sample(const std::string &s) { if (samples.size() < 6) samples.push_back(s); }
void note_bound(const std::string &b) { if (std::find(bounds.begin(), bounds.end(), b) == bounds.end()) bounds.push_back(b); }
static bool is_known(const std::string &sig) { for (auto &k : known) if (k == sig) return true; return false; }
static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static double t_deadline = 0;
static std::string cur_scen; static long n_scen = 0;
bool scenario(const std::string &name) {
    if (!viols.empty()) return false;
    if (replaying) {
        static std::string want, rest; if (want.empty() && replay[0] == '@') { size_t e = replay.find('@', 1); want = replay.substr(1, e - 1); replay = replay.substr(e + 1); }
        if (name != want) return false;
    }
    if (t_deadline && now() > t_deadline) { truncated = true; note_bound(cur_job + ": scenarios cut by time"); return false; }
    cur_scen = name; n_scen++; vn_reset(); return true;
}
/* returns true if the search must stop */
static bool record(const std::string &path) {
    if (cur_sig.empty()) return false;
    std::string s = cur_sig, m = cur_msg; cur_sig.clear(); cur_msg.clear();
    if (is_known(s)) { known_hits[s]++; return false; }
    viols.push_back({s, m, cur_scen.empty() ? path : "@" + cur_scen + "@ " + path});
    return true;
}

/* ------------------------------------------------------------- enumeration of inputs */
static std::string case_desc; long n_cases = 0;
bool begin_case(const std::string &d) {
    if (!viols.empty()) return false;
    if (replaying && d != replay) return false;
    case_desc = d; n_cases++; return true;
}
void end_case() { n_states++; n_trans++; n_exec++; record(case_desc); }

/* ------------------------------------------------------------- operation sequences */
struct H128 { uint64_t a, b; bool operator==(const H128 &o) const { return a == o.a && b == o.b; } };
struct HH { size_t operator()(const H128 &h) const { return h.a ^ (h.b * 31); } };
static H128 whash() { uint64_t h[2]; vn_hash(h); return {h[0], h[1]}; }

static std::vector<int> parse_ints(const std::string &s) { std::vector<int> v; const char *p = s.c_str(); while (*p) { char *e; long x = strtol(p, &e, 10); if (e == p) { ++p; continue; } v.push_back(x); p = e; } return v; }

void explore_ops(const std::vector<Op> &ops, std::function<void()> inv, Limits lim) {
    struct Node { int parent; short op; short depth; };
    std::vector<Node> nodes; std::unordered_map<H128, int, HH> seen;
    auto path_of = [&](int n, int op) { std::string names, idx; std::vector<int> v; if (op >= 0) v.push_back(op);
        for (; n > 0; n = nodes[n].parent) v.push_back(nodes[n].op);
        std::reverse(v.begin(), v.end());
        for (int o : v) { idx += std::to_string(o) + ","; names += ops[o].name + "; "; }
        return idx + " # " + names; };
    note_bound(fmt("all sequences of up to %d operations out of %zu%s", lim.depth, ops.size(), lim.probes.empty() ? "" : fmt(", and then each of %zu of them", lim.probes.size()).c_str()));
    if (inv) inv();
    if (record("# initial state")) return;
    if (replaying) {
        std::string r = replay.substr(0, replay.find('#'));
        for (int o : parse_ints(r)) {
            if (o < 0 || o >= (int)ops.size() || (ops[o].enabled && !ops[o].enabled())) { fprintf(stderr, "replay: op %d not enabled\n", o); return; }
            fprintf(stderr, "  op %s\n", ops[o].name.c_str());
            ops[o].run(); if (!is_bad() && inv) inv(); vn_canon_time(); n_trans++;
            if (record(replay)) return;
        }
        return;
    }
    vn_canon_time();
    struct Fr { int node; vn_snap s; };
    std::deque<Fr> q; nodes.push_back({-1, -1, 0}); seen[whash()] = 0; n_states++;
    { Fr f; f.node = 0; vn_save(&f.s, 1); q.push_back(f); }
    long cap = lim.max_states; int done_depth = 0;
    while (!q.empty()) {
        Fr f = q.front(); q.pop_front();
        int d = nodes[f.node].depth; if (d > max_depth) max_depth = d;
        if (d >= lim.depth) { vn_snap_free(&f.s); continue; }
        if (t_deadline && now() > t_deadline) { truncated = true; note_bound(fmt("%s: stopped by time inside depth %d", cur_job.c_str(), d + 1)); vn_snap_free(&f.s); while (!q.empty()) { vn_snap_free(&q.front().s); q.pop_front(); } break; }
        bool first = true;
        vn_restore(&f.s);
        for (int o = 0; o < (int)ops.size(); ++o) {
            if (!first) vn_restore(&f.s);
            if (ops[o].enabled && !ops[o].enabled()) { first = true; /* enabled() must not change the world */ continue; }
            first = false;
            ops[o].run(); n_trans++;
            if (!is_bad() && inv) inv();
            if (is_bad()) { if (record(path_of(f.node, o))) { goto out; } continue; }
            vn_canon_time();
            H128 h = whash();
            if (seen.count(h)) { n_exec++; continue; }
            if (d + 1 == lim.depth) n_exec++;
            if ((long)nodes.size() >= cap) { if (!truncated) note_bound(fmt("%s: state cap %ld reached at depth %d", cur_job.c_str(), cap, d + 1)); truncated = true; continue; }
            int id = nodes.size(); nodes.push_back({f.node, (short)o, (short)(d + 1)}); seen[h] = id; n_states++;
            if (d + 1 > max_depth) max_depth = d + 1;
            if (samples.size() < 4 && (id % 997) == 5) sample(path_of(id, -1));
            if (d + 1 < lim.depth) { Fr g; g.node = id; vn_save(&g.s, 1); q.push_back(g); }
            else if (!lim.probes.empty()) {
                vn_snap t; vn_save(&t, 0); bool fst = true, stop = false;
                for (int po : lim.probes) {
                    if (!fst) vn_restore(&t);
                    fst = true; if (ops[po].enabled && !ops[po].enabled()) continue;
                    fst = false; ops[po].run(); n_trans++; if (!is_bad() && inv) inv();
                    if (is_bad() && record(path_of(id, po))) { stop = true; break; }
                }
                vn_snap_free(&t); if (stop) goto out;
            }
        }
        vn_snap_free(&f.s);
    }
    if (samples.size() < 4 && nodes.size() > 1) sample(path_of(nodes.size() - 1, -1));
out:
    while (!q.empty()) { vn_snap_free(&q.front().s); q.pop_front(); }
}

/* ------------------------------------------------------------- schedules */
/* choice encoding: tid (run) | 100+tid (wake/time out) | 200+proc (crash) */
struct SchedSearch {
    const Sched &S; std::unordered_map<H128, int, HH> seen; std::vector<int> path; long cap_hits = 0;
    std::string pstr() { std::string s; for (int c : path) s += std::to_string(c) + ","; return s + " # run tid | 100+tid time passes for tid | 200+proc crash"; }
    bool alive_coro(int t) { return G.thr[t].entry && G.thr[t].state != VT_FREE && G.thr[t].state != VT_DEAD && G.thr[t].state != VT_DONE; }
    void unspin(int except) { for (int t = 0; t < VN_MAXTHR; ++t) if (t != except && G.thr[t].state == VT_SPIN) { G.thr[t].state = VT_READY; G.thr[t].spin_cnt = 0; } }
    /* perform a choice; returns false when the path ends in a violation */
    bool perform(int c, int &last) {
        n_trans++;
        if (c >= 200) { vn_kill(c - 200); if (S.on_crash) S.on_crash(c - 200); unspin(-1); last = -1; }
        else if (c >= 100) { vn_wake(c - 100); last = -1; }
        else { int p = G.thr[c].proc; vn_exc_msg[0] = 0; vn_run(c); unspin(c); last = c; if (!G.proc[p].alive && !S.may_die) { vn_leave(); bad("died", "process %d dies: %s", p, vn_exc_msg); return false; } }
        vn_leave();
        if (S.at_step && !is_bad()) { S.at_step(); vn_leave(); }
        return !is_bad();
    }
    struct Ch { int c, pre, crash, tmo; };
    std::vector<Ch> choices(int last, int pre, int crash, int tmo) {
        std::vector<Ch> v; bool last_en = last >= 0 && alive_coro(last) && vn_enabled(last) && G.thr[last].state != VT_SPIN; bool any = last_en;
        if (last_en) v.push_back({last, pre, crash, tmo});
        for (int t = 0; t < VN_MAXTHR; ++t) if (t != last && alive_coro(t) && vn_enabled(t)) {
            any = true;
            if (!last_en) v.push_back({t, pre, crash, tmo}); else if (pre > 0) v.push_back({t, pre - 1, crash, tmo});
        }
        if (!any) { /* spinners may be re-polled only through time */
            /* let time pass: the earliest deadlines first are all possible (sleep lengths are lower bounds) */
            for (int t = 0; t < VN_MAXTHR; ++t) if (alive_coro(t) && vn_can_wake(t)) v.push_back({100 + t, pre, crash, tmo});
        } else if (tmo > 0) for (int t = 0; t < VN_MAXTHR; ++t) if (alive_coro(t) && vn_can_wake(t)) v.push_back({100 + t, pre, crash, tmo - 1});
        if (crash > 0) for (int p : S.crash_procs) if (G.proc[p].used && G.proc[p].alive) {
            bool running = false; for (int t = 0; t < VN_MAXTHR; ++t) if (alive_coro(t) && G.thr[t].proc == p) running = true;
            if (running) v.push_back({200 + p, pre, crash - 1, tmo});
        }
        return v;
    }
    void end() {
        n_ends++;
        bool dead = false; for (int t = 0; t < VN_MAXTHR; ++t) if (alive_coro(t)) dead = true;
        int sv = vn_explore; vn_explore = 0;
        if (S.at_end) S.at_end(dead);
        vn_explore = sv;
        vn_leave();
    }
    bool stop = false;
    void dfs(int last, int pre, int crash, int tmo, int depth) {
        if (stop) return;
        /* iterate along forced choices without recursion */
        size_t base = path.size(); 
        for (;;) {
            if ((n_trans & 0x3ff) == 0 && t_deadline && now() > t_deadline) { truncated = true; note_bound(cur_job + ": stopped by time"); stop = true; break; }
            std::vector<Ch> v = choices(last, pre, crash, tmo);
            if (v.empty() || std::all_of(v.begin(), v.end(), [](const Ch &c) { return c.c >= 200; })) {
                if (!v.empty()) { /* only crashes left */ }
                vn_snap s; vn_save(&s, 0);
                end(); n_exec++;
                if (is_bad()) { if (record(pstr())) stop = true; }
                if (!v.empty() && !stop) for (auto &c : v) { vn_restore(&s); path.push_back(c.c); int l = last;
                    if (!perform(c.c, l)) { if (record(pstr())) stop = true; } else dfs(l, c.pre, c.crash, c.tmo, depth + 1);
                    path.pop_back(); if (stop) break; }
                vn_snap_free(&s);
                break;
            }
            if ((int)path.size() > max_depth) max_depth = path.size();
            if (v.size() == 1) { path.push_back(v[0].c); pre = v[0].pre; crash = v[0].crash; tmo = v[0].tmo;
                if (!perform(v[0].c, last)) { if (record(pstr())) stop = true; break; }
                if (path.size() > 100000) { bad("livelock", "execution of more than 100000 steps"); if (record(pstr())) stop = true; break; }
                continue; }
            /* branching state: merge */
            H128 h = whash(); h.a ^= (uint64_t)(last + 2) * 0x9E3779B97F4A7C15ULL; h.b += (uint64_t)crash * 0x517cc1b727220a95ULL + (uint64_t)tmo * 0x2545F4914F6CDD1DULL;
            auto it = seen.find(h);
            if (it != seen.end()) { if (it->second >= pre) break; it->second = pre; }
            else { if ((long)seen.size() >= S.max_states) { truncated = true; note_bound(cur_job + ": state cap reached"); stop = true; break; } seen[h] = pre; n_states++; }
            vn_snap s; vn_save(&s, 1);
            for (size_t i = 0; i < v.size() && !stop; ++i) {
                if (i) vn_restore(&s);
                path.push_back(v[i].c); int l = last;
                if (!perform(v[i].c, l)) { if (record(pstr())) stop = true; }
                else dfs(l, v[i].pre, v[i].crash, v[i].tmo, depth + 1);
                path.pop_back();
            }
            vn_snap_free(&s);
            break;
        }
        path.resize(base);
    }
};
void explore_schedules(const Sched &S) {
    SchedSearch X{S};
    note_bound(fmt("all interleavings with at most %d preemptive context switches%s%s", S.preemptions, S.crashes ? ", a crash at every scheduling point" : "", S.timeouts ? ", early time-outs" : ""));
    vn_leave();
    vn_explore = 1;
    if (replaying) {
        std::string r = replay.substr(0, replay.find('#')); int last = -1;
        for (int c : parse_ints(r)) {
            if (getenv("VN_VERBOSE")) fprintf(stderr, "  choice %d\n", c);
            if (!X.perform(c, last)) { X.path.push_back(c); record(replay); vn_explore = 0; return; }
        }
        X.end(); record(replay); vn_explore = 0; return;
    }
    X.dfs(-1, S.preemptions, S.crashes, S.timeouts, 0);
    vn_explore = 0;
    if (samples.size() < 4) sample(fmt("%s: %ld maximal executions, %zu branching states merged", cur_job.c_str(), n_exec, X.seen.size()));
}
static std::string js(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static void report(FILE *f) {
    fprintf(f, "{\"job\":%s,\"states\":%ld,\"transitions\":%ld,\"executions\":%ld,\"evals\":%ld,\"nontrivial\":%ld,\"depth\":%d,\"truncated\":%s,", js(cur_job).c_str(), n_states, n_trans, n_exec, n_evals, n_nontrivial + (long)distinct_keys.size(), max_depth, truncated ? "true" : "false");
    fprintf(f, "\"violations\":["); for (size_t i = 0; i < viols.size(); ++i) fprintf(f, "%s{\"sig\":%s,\"msg\":%s,\"path\":%s}", i ? "," : "", js(viols[i].sig).c_str(), js(viols[i].msg).c_str(), js(viols[i].path).c_str());
    fprintf(f, "],\"known\":{"); { int i = 0; for (auto &k : known_hits) fprintf(f, "%s%s:%ld", i++ ? "," : "", js(k.first).c_str(), k.second); }
    fprintf(f, "},\"outcomes\":{"); { int i = 0; for (auto &k : outcomes) fprintf(f, "%s%s:%ld", i++ ? "," : "", js(k.first).c_str(), k.second); }
    fprintf(f, "},\"samples\":["); for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? "," : "", js(samples[i]).c_str());
    fprintf(f, "],\"bounds\":["); for (size_t i = 0; i < bounds.size(); ++i) fprintf(f, "%s%s", i ? "," : "", js(bounds[i]).c_str());
    fprintf(f, "]}\n");
}
static std::string out_file; static FILE *const std_out = stdout;
/* the implementation broke down in a way that does not allow going on */
void die(const char *sig, const char *msg) { cur_sig = sig; cur_msg = msg; record(case_desc); FILE *f = out_file.empty() ? std_out : fopen(out_file.c_str(), "w"); if (f) { report(f); fflush(f); } _exit(0); }
}
using namespace mc;
int main(int argc, char **argv) {
    std::string jobname; bool list = false; 
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--thorough") thorough = true; else if (a == "--level") level = atoi(argv[++i]); else if (a == "--list") list = true;
        else if (a == "--job") jobname = argv[++i]; else if (a == "--out") out_file = argv[++i];
        else if (a == "--known") known.push_back(argv[++i]);
        else if (a == "--deadline") t_deadline = now() + atof(argv[++i]);
        else if (a == "--replay") { replay = argv[++i]; replaying = true; }
    }
    mc_register();
    if (list) { for (auto &j : jobs) printf("%d %s\n", j.weight, j.name.c_str()); return 0; }
    vn_boot();
    for (auto &j : jobs) if (j.name == jobname) {
        cur_job = jobname;
        vn_reset();
        j.body();
        if (is_bad()) record("# setup");
        if (n_scen) note_bound(cur_job + ": " + std::to_string(n_scen) + " scenarios");
        FILE *f = out_file.empty() ? std_out : fopen(out_file.c_str(), "w"); report(f); fflush(f);
        _exit(0);
    }
    fprintf(stderr, "no such job %s\n", jobname.c_str()); return 2;
}
