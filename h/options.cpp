/* Option parsing: every way of giving an option, against the documented meaning. */
#include "nat.h"
extern "C" {
#include "support/options.h"
#include "apis/dlb_errors.h"
}
#include <strings.h>
#include <unistd.h>
using std::string; using std::vector;
enum T { B, NB, I, S, P, VB, VF, IN, DB, AF, MO, MS, OM, TS, TM, TH };
enum { RO = 1, DEP = 2, ADV = 4, HID = 8 };
struct Opt { const char *name, *var; T t; const char *def; int fl; size_t off, sz; int base; };
#define F(f) offsetof(options_t, f), sizeof(((options_t *)0)->f), -1
static Opt O[] = {
 {"--lewi", "LB_LEWI", B, "no", RO, F(lewi)}, {"--drom", "LB_DROM", B, "no", RO, F(drom)}, {"--talp", "LB_TALP", B, "no", 0, F(talp)},
 {"--barrier", "LB_BARRIER", B, "yes", RO, F(barrier)}, {"--ompt", 0, B, "no", RO, F(ompt)}, {"--mode", "LB_MODE", MO, "polling", RO, F(mode)},
 {"--quiet", 0, B, "no", RO, F(quiet)}, {"--silent", 0, B, "no", RO, F(silent)}, {"--verbose", "LB_VERBOSE", VB, "no", RO, F(verbose)},
 {"--verbose-format", "LB_VERBOSE_FORMAT", VF, "node:spid", RO, F(verbose_fmt)}, {"--instrument", 0, IN, "all", RO, F(instrument)},
 {"--instrument-counters", 0, B, "no", RO, F(instrument_counters)}, {"--instrument-extrae-nthreads", 0, I, "0", RO | ADV, F(instrument_extrae_nthreads)},
 {"--lewi-keep-one-cpu", 0, B, "no", 0, F(lewi_keep_cpu_on_blocking_call)}, {"--lewi-respect-cpuset", 0, B, "yes", 0, F(lewi_respect_cpuset)},
 {"--lewi-respect-mask", 0, B, "yes", DEP, F(lewi_respect_cpuset)}, {"--lewi-mpi", 0, NB, "no", DEP, F(lewi_keep_cpu_on_blocking_call)},
 {"--lewi-mpi-calls", 0, MS, "all", 0, F(lewi_mpi_calls)}, {"--lewi-barrier", 0, B, "yes", RO, F(lewi_barrier)},
 {"--lewi-barrier-select", 0, S, "", RO | ADV, F(lewi_barrier_select)}, {"--lewi-affinity", 0, AF, "auto", 0, F(lewi_affinity)},
 {"--lewi-ompt", 0, OM, "borrow", 0, F(lewi_ompt)}, {"--lewi-greedy", 0, B, "no", 0, F(lewi_greedy)}, {"--lewi-warmup", 0, B, "no", RO, F(lewi_warmup)},
 {"--lewi-max-parallelism", 0, I, "0", RO, F(lewi_max_parallelism)}, {"--lewi-color", 0, I, "0", RO, F(lewi_color)},
 {"--talp-openmp", 0, B, "no", RO, F(talp_openmp)}, {"--talp-papi", 0, B, "no", RO, F(talp_papi)}, {"--talp-summary", "LB_TALP_SUMM", TS, "pop-metrics", RO, F(talp_summary)},
 {"--talp-output-file", 0, P, "", RO, F(talp_output_file)}, {"--talp-external-profiler", 0, B, "no", RO, F(talp_external_profiler)},
 {"--talp-region-select", 0, S, "", RO, F(talp_region_select)}, {"--talp-model", 0, TM, "hybrid-v2", RO | ADV, F(talp_model)},
 {"--barrier-id", 0, I, "0", RO | ADV, F(barrier_id)}, {"--shm-key", "LB_SHM_KEY", S, "", RO | ADV, F(shm_key)},
 {"--shm-size-multiplier", 0, I, "1", RO | ADV, F(shm_size_multiplier)}, {"--preinit-pid", "LB_PREINIT_PID", I, "0", RO | HID, F(preinit_pid)},
 {"--ompt-thread-manager", 0, TH, "none", 0, F(omptm_version)}, {"--debug-opts", "LB_DEBUG_OPTS", DB, "", ADV, F(debug_opts)},
};
enum { N = sizeof O / sizeof *O };
static const vector<string> NAMES_VB = {"api", "microlb", "shmem", "mpi_api", "mpi_intercept", "stats", "drom", "async", "ompt", "affinity", "barrier", "talp", "instrument"},
 NAMES_VF = {"node", "mpinode", "mpirank", "spid", "thread", "timestamp"}, NAMES_IN = {"mpi", "lewi", "drom", "talp", "barrier", "ompt", "cpus", "callbacks"},
 NAMES_DB = {"return-stolen", "werror", "lend-post-mortem", "warn-mpi-version"}, NAMES_OM = {"borrow", "lend"}, NAMES_TS = {"pop-metrics", "pop-raw", "node", "process"},
 CH_AF = {"auto", "none", "mask", "nearby-first", "nearby-only", "spread-ifempty"}, CH_MO = {"polling", "async"}, CH_MS = {"none", "all", "barrier", "collectives"},
 CH_TM = {"hybrid-v1", "hybrid-v2"}, CH_TH = {"none", "omp5", "free-agents", "role-shift"};
static const vector<string> &names(T t) { switch (t) { case VB: return NAMES_VB; case VF: return NAMES_VF; case IN: return NAMES_IN; case DB: return NAMES_DB; case OM: return NAMES_OM; case TS: return NAMES_TS;
   case AF: return CH_AF; case MO: return CH_MO; case MS: return CH_MS; case TM: return CH_TM; default: return CH_TH; } }
static bool multi(T t) { return t >= VB && t <= DB || t == OM || t == TS; }
static vector<string> split(const string &s, const char *sep) { vector<string> v; size_t i = 0; while ((i = s.find_first_not_of(sep, i)) != string::npos) { size_t e = s.find_first_of(sep, i); v.push_back(s.substr(i, e - i)); i = e == string::npos ? s.size() : e; } return v; }
static bool ieq(const string &a, const string &b) { return !strcasecmp(a.c_str(), b.c_str()); }
/* the meaning of a value: canonical text, or false if it is not a value of the option */
static bool value_of(T t, const string &v, string &c) {
    switch (t) {
    case B: case NB: if (ieq(v, "1") || ieq(v, "yes") || ieq(v, "true")) c = "yes"; else if (ieq(v, "0") || ieq(v, "no") || ieq(v, "false")) c = "no"; else return false; return true;
    case I: { char *e; errno = 0; long long x = strtoll(v.c_str(), &e, 0); if (e == v.c_str() || errno || x != (int)x) return false; c = std::to_string(x); return true; }
    case S: case P: c = v; return true;
    case AF: if (ieq(v, "any")) { c = "mask"; return true; } /* fall through */
    case MO: case MS: case TM: case TH: for (auto &n : names(t)) if (ieq(n, v)) { c = n; return true; } return false;
    default: {
        if (v == "yes") { if (t == VB || t == IN) { c = "all"; return true; } if (t == TS) { c = "pop-metrics"; return true; } }
        if (v == "no" && (t == IN || t == TS)) { c = "none"; return true; }
        std::set<int> set; bool all = false;
        for (auto &k : split(v, ":")) { for (size_t i = 0; i < names(t).size(); ++i) if (names(t)[i] == k) set.insert(i); if (k == "all" && (t == VB || t == IN || t == TS)) all = true; if (t == TS && k == "app") set.insert(0); }
        if (all) { c = "all"; return true; }
        c.clear(); for (int i : set) c += (c.empty() ? "" : ":") + names(t)[i];
        if (c.empty()) c = t == VB ? "no" : t == IN || t == TS || t == OM ? "none" : "";
        return true; } }
}
/* the last non-empty value that an argument string gives to an option */
static bool given(const string &args, const Opt &o, string &v) {
    bool f = false; for (auto &k : split(args, " \t\n\v\f\r")) { size_t e = k.find('=');
        if (e != string::npos) { if (k.substr(0, e) == o.name && e + 1 < k.size()) { v = k.substr(e + 1); f = true; } }
        else if (k == o.name) { v = "yes"; f = true; } else if (k == string("--no-") + (o.name + 2)) { v = "no"; f = true; } }
    return f;
}
static bool has_unknown(const string &args) {
    for (auto &k : split(args, " \t\n\v\f\r")) { size_t e = k.find('='); bool kn = false; string n = k.substr(0, e);
        for (auto &o : O) if (n == o.name || e == string::npos && k == string("--no-") + (o.name + 2)) kn = true;
        if (n == "--talp-regions-per-proc" || e == string::npos && k == "--no-talp-regions-per-proc") kn = true;
        if (!kn) return true; }
    return false;
}
struct Src { const char *api, *env; const char *lbvar = 0, *lbval = 0; };
static string neg(const string &s) { return s == "yes" ? "no" : "yes"; }
static void expect(const Src &s, string *exp) {
    for (int i = 0; i < N; ++i) { Opt &o = O[i]; string v, c; bool f = false;
        if (s.env && given(s.env, o, v)) f = true; else if (s.api && given(s.api, o, v)) f = true; else if (s.lbvar && o.var && !strcmp(s.lbvar, o.var)) { v = s.lbval; f = true; }
        bool ok = f && value_of(o.t, v, c);
        if (o.t == S && c.size() > 63) c.resize(63);
        exp[i] = ok ? c : o.fl & DEP ? "" : o.def; }
    auto ix = [](const char *n) { for (int i = 0; i < N; ++i) if (!strcmp(O[i].name, n)) return i; return -1; };
    /* the deprecated aliases prevail when given */
    int keep = ix("--lewi-keep-one-cpu"), mpi = ix("--lewi-mpi"), cs = ix("--lewi-respect-cpuset"), rm = ix("--lewi-respect-mask");
    if (exp[mpi] != "") exp[keep] = neg(exp[mpi]); else exp[mpi] = neg(exp[keep]);
    if (exp[rm] != "") exp[cs] = exp[rm]; else exp[rm] = exp[cs];
}
static void set_env(const Src &s) { if (s.env) setenv("DLB_ARGS", s.env, 1); else unsetenv("DLB_ARGS"); if (s.lbvar) setenv(s.lbvar, s.lbval, 1); }
static void unset_env(const Src &s) { unsetenv("DLB_ARGS"); if (s.lbvar) unsetenv(s.lbvar); }
static string show(const char *s) { if (!s) return "-"; string r = "\""; for (; *s; ++s) if (*s == '\n') r += "\\n"; else if (*s == '\t') r += "\\t"; else r += *s; if (r.size() > 400) r = r.substr(0, 200) + "..." + std::to_string(r.size()); return r + "\""; }
static string desc(const Src &s) { return "api=" + show(s.api) + " env=" + show(s.env) + (s.lbvar ? string(" ") + s.lbvar + "=" + s.lbval : ""); }
static char val[8192];
static void compare(options_t *o, const string *exp) {
    for (int i = 0; i < N; ++i) {
        val[0] = 1; int e = options_get_variable(o, O[i].name, val);
        if (e != DLB_SUCCESS) { mc::bad("get", "reading %s returns %d", O[i].name, e); return; }
        if (exp[i] == val) continue;
        if (O[i].t == S && exp[i].size() >= 62 && string(val).size() >= 62 && exp[i].compare(0, string(val).size(), val) == 0) continue;
        mc::bad("value", "%s is \"%.120s\", expected \"%.120s\"", O[i].name, val, exp[i].c_str()); return;
    }
}
static void one(const Src &s, const string &tag = "") {
    if (!mc::begin_case(tag + desc(s))) return;
    static options_t o; memset(&o, 0x5a, sizeof o);
    string exp[N]; expect(s, exp); set_env(s);
    bool werr = false; for (int i = 0; i < N; ++i) if (O[i].t == DB && exp[i].find("werror") != string::npos) werr = true;
    bool ua = s.api && has_unknown(s.api), ue = s.env && has_unknown(s.env);
    nat::cap();
    bool ok = nat::run([&] { options_init(&o, s.api); });
    const string &out = nat::out();
    if (ok != !(werr && (ua || ue))) mc::bad("abort", ok ? "unknown flags are accepted in spite of werror" : "the library aborts: %s", out.substr(0, 300).c_str());
    else if (ok) {
        string sv; bool silent = s.env && given(s.env, O[7], sv) && value_of(B, sv, sv) && sv == "yes";
        if (silent) ;
        else if ((out.find("Unrecognized flags from DLB_Init") != string::npos) != ua) mc::bad("unknown", "unrecognised flags of DLB_Init %sreported", ua ? "not " : "wrongly ");
        if ((out.find("Unrecognized flags from DLB_ARGS") != string::npos) != ue) mc::bad("unknown", "unrecognised flags of DLB_ARGS %sreported", ue ? "not " : "wrongly ");
        compare(&o, exp);
        options_finalize(&o);
        mc::outcome(ua || ue ? "unknown flags" : "known flags only");
    } else mc::outcome("werror abort");
    unset_env(s); mc::eval(true); mc::end_case();
}
/* values to try */
static vector<string> values(const Opt &o, bool all) {
    vector<string> v;
    switch (o.t) {
    case B: case NB: v = {"yes", "no", "1", "0", "true", "false", "YES", "No", "TRUE", "False"}; if (all) for (auto x : {"", "2", "y", "n", "on", "yes!", "yesno", "00"}) v.push_back(x); break;
    case I: v = {"0", "1", "7", "42", "-1", "1000000", "10000000", "2147483647", "-2147483648"}; if (all) for (auto x : {"x", "yes", "", "2147483648", "-2147483649", "4294967297", "99999999999999999999", "-"}) v.push_back(x); break;
    case S: v = {"a", "key", "a,b", "include:global,r1", "a=b", "=x"}; if (all) { v.push_back(""); for (int l : {61, 62, 63}) v.push_back(string(l, 'k')); } break;
    case P: v = {"f", "out.json", "/tmp/d=1/o.csv", "a.b.c"}; if (all) { v.push_back(""); for (int l : {63, 64, 65, 200, 300, 1000, 4000}) v.push_back(string(l, 'p')); } break;
    default: for (auto &n : names(o.t)) v.push_back(n);
        if (multi(o.t)) { auto &n = names(o.t); v.push_back(n[1] + ":" + n[0]); if (o.t == VB || o.t == IN || o.t == TS) v.push_back("all"); v.push_back(o.t == VB ? "no" : o.t == DB || o.t == VF ? n[0] : "none"); if (o.t == TS) v.push_back("app");
            if (all && o.t != DB) { v.push_back(n[0] + "::" + n[1]); v.push_back(":" + n[0] + ":"); v.push_back("nothing"); v.push_back(n[1] + ":nothing:" + n[0]); v.push_back(n[0] + ":" + n[0]); v.push_back(""); } }
        else { string u = names(o.t)[0]; for (auto &c : u) c = toupper(c); v.push_back(u); if (o.t == AF) v.push_back("any"); if (all) for (auto x : {"", "nothing", "yes", "1"}) v.push_back(x); }
    }
    return v;
}
static bool bare_ok(T t) { return t == B || t == NB || t == VB || t == IN || t == TS; }
static vector<string> tokens(const Opt &o, bool all) { vector<string> v; for (auto &x : values(o, all)) v.push_back(string(o.name) + "=" + x); if (bare_ok(o.t)) { v.push_back(o.name); if (o.t != VB) v.push_back(string("--no-") + (o.name + 2)); } return v; }
static void job_single(int part, int parts) {
    for (int i = part; i < N; i += parts) {
        const Opt &o = O[i]; const Opt &p = O[(i + 1) % N], &q = O[(i + 2) % N]; string tp = tokens(p, false)[0], tq = tokens(q, false)[1];
        for (auto &t : tokens(o, true)) {
            vector<string> forms = {t, " " + t, t + "  ", "\t" + t, t + "\n", "  \t\n " + t + " \t ", tp + " " + t, t + " " + tp, tp + "\t" + t + "\n" + tq, tp + "   " + t + "  " + tq, tq + " \n \t" + t};
            for (auto &f : forms) { one({f.c_str(), 0}); one({0, f.c_str()}); one({f.c_str(), tp.c_str()}); one({tq.c_str(), f.c_str()}); }
        }
        if (o.var) for (auto &x : values(o, true)) if (x != "") { one({0, 0, o.var, x.c_str()}); string t = tokens(o, false)[1]; one({t.c_str(), 0, o.var, x.c_str()}); one({0, t.c_str(), o.var, x.c_str()}); one({tp.c_str(), 0, o.var, x.c_str()}); }
    }
    mc::note_bound("every option x every documented value and invalid values x way of giving it x position among other options and blanks");
}
static void job_pairs(int part, int parts) {
    vector<string> tk; for (auto &o : O) { auto v = tokens(o, false); size_t k = mc::level >= 2 ? v.size() : 0; if (k) tk.insert(tk.end(), v.begin(), v.end()); else { tk.push_back(v[0]); tk.push_back(v[1]); if (bare_ok(o.t)) tk.push_back(o.name); } }
    for (size_t i = part; i < tk.size(); i += parts) for (auto &b : tk) {
        string ab = tk[i] + " " + b; const string &a = tk[i];
        one({ab.c_str(), 0}); one({0, ab.c_str()}); one({a.c_str(), b.c_str()});
    }
    mc::note_bound("all ordered pairs of options and values, together and split between DLB_Init and DLB_ARGS");
}
static void job_junk(int part, int parts) {
    static const vector<string> tk = {"--lewi", "--no-lewi", "--lewi=no", "--lewi-greedy", "--lewi=", "=", "==", "=yes", "--", "-", "--no-", "--=x", "--unknown", "--lew", "--lewix", "lewi", "--no-lewi=yes", "--LEWI", "--shm-key=a=b", "--debug-opts=werror", "--talp-output-file=/a/b=c", "--talp-output-file=z"};
    static const vector<string> sep = {" ", "\t", " \n  "}; int len = mc::level >= 2 ? 3 : 2; size_t k = 0;
    std::function<void(string, int)> rec = [&](string s, int d) {
        if (k++ % parts == (size_t)part) { one({s.c_str(), 0}); one({0, s.c_str()}); one({s.c_str(), s.c_str()}, "both "); }
        if (d < len) for (auto &t : tk) for (auto &x : sep) rec(s + x + t, d + 1);
    };
    rec("", 0); for (auto &t : tk) rec(t, 1);
    mc::note_bound(mc::fmt("all strings of up to %d of %zu tokens, well and badly formed, with %zu separators", len, tk.size(), sep.size()));
}
/* every subset of the names of an option, in both orders */
static void job_subsets() {
    for (auto &o : O) if (multi(o.t)) { auto &n = names(o.t); 
        for (unsigned m = 1; m < 1u << n.size(); ++m) for (int rev = 0; rev < 2; ++rev) {
            if (o.t == VB && mc::level < 2 && rev && (m & 0x55)) continue;
            string v; for (size_t j = 0; j < n.size(); ++j) { size_t x = rev ? n.size() - 1 - j : j; if (m >> x & 1) v += (v.empty() ? "" : ":") + n[x]; }
            string t = string(o.name) + "=" + v; one({t.c_str(), 0}); if (m % 7 == 1) one({0, t.c_str()}); } }
    mc::note_bound("every subset of the names of each multiple-choice option, in ascending and descending order");
}
static void job_long() {
    for (auto &o : O) if (o.t == S || o.t == P) for (int l = 1; l < (o.t == P ? 4096 : 200); l += l < 130 ? 1 : o.t == P ? 37 : 1) {
        string v; for (int i = 0; i < l; ++i) v += 'a' + i % 26; string t = string(o.name) + "=" + v + " --lewi";
        one({t.c_str(), 0}, mc::fmt("%s len %d ", o.name, l)); one({0, t.c_str()}, mc::fmt("%s len %d ", o.name, l)); }
    /* long lists of everything */
    string all; for (auto &o : O) all += tokens(o, false)[0] + " "; one({all.c_str(), 0}, "all "); one({0, all.c_str()}, "all "); string many; for (int i = 0; i < 60; ++i) many += all; one({many.c_str(), many.c_str()}, "many ");
    mc::note_bound("text options of every length up to 199 (paths: to 4095 in steps)");
}
/* setting and reading options of a live instance, to a depth */
static void job_set(int part, int parts) {
    struct Sv { int i; string v; }; vector<Sv> sv;
    for (int i = 0; i < N; ++i) { auto v = values(O[i], true); if (O[i].fl & RO) { sv.push_back({i, v[0]}); sv.push_back({i, v[1]}); } else for (auto &x : v) if (x != "" || !multi(O[i].t)) sv.push_back({i, x}); }
    auto ix = [](const char *n) { for (int i = 0; i < N; ++i) if (!strcmp(O[i].name, n)) return i; return -1; };
    static int keep = ix("--lewi-keep-one-cpu"), mpi = ix("--lewi-mpi"), cs = ix("--lewi-respect-cpuset"), rm = ix("--lewi-respect-mask");
    auto apply = [&](options_t *o, string *exp, const Sv &s, bool upper) {
        const Opt &p = O[s.i]; string c, n = p.name; if (upper) for (auto &ch : n) ch = toupper(ch);
        int e = options_set_variable(o, n.c_str(), s.v.c_str());
        if (p.fl & RO) { if (e != DLB_ERR_PERM) mc::bad("perm", "%s can only be read, but setting it returns %d", p.name, e); return; }
        bool ok = value_of(p.t, s.v, c);
        if ((e == DLB_SUCCESS) != ok) { mc::bad("seterr", "setting %s to \"%s\" returns %d", p.name, s.v.c_str(), e); return; }
        if (!ok) return;
        exp[s.i] = c; if (s.i == keep) exp[mpi] = neg(c); if (s.i == mpi) exp[keep] = neg(c); if (s.i == cs) exp[rm] = c; if (s.i == rm) exp[cs] = c;
    };
    for (size_t a = part; a < sv.size(); a += parts) for (size_t b = 0; b <= sv.size(); ++b) {
        string d = string("set ") + O[sv[a].i].name + "=" + sv[a].v + (b < sv.size() ? string("; set ") + O[sv[b].i].name + "=" + sv[b].v : "");
        if (!mc::begin_case(d)) continue;
        static options_t o; string exp[N]; unsetenv("DLB_ARGS"); expect({0, 0}, exp); nat::cap(); 
        if (!nat::run([&] { options_init(&o, 0); apply(&o, exp, sv[a], false); if (b < sv.size()) apply(&o, exp, sv[b], true); if (!mc::is_bad()) compare(&o, exp); })) mc::bad("abort", "the library aborts: %s", nat::out().substr(0, 300).c_str());
        options_finalize(&o); mc::eval(); mc::end_case();
    }
    if (part == 0) for (auto n : {"", "-", "--", "lewi", "--lew", "--lewix", "--unknown", "LB_", "LB_LEWIX"}) if (mc::begin_case(string("unknown name ") + n)) {
        static options_t o; options_init(&o, 0); strcpy(val, "keep"); options_t o2 = o;
        int e = options_set_variable(&o, n, "yes"), g = options_get_variable(&o, n, val);
        if (e != DLB_ERR_NOENT || g != DLB_ERR_NOENT || strcmp(val, "keep") || memcmp(&o, &o2, sizeof o)) mc::bad("noent", "unknown option \"%s\": set returns %d, get returns %d", n, e, g);
        mc::end_case(); }
    mc::note_bound("all sequences of up to 2 assignments of options x values");
}
/* the listing shows the current values, and reading one entry before initialisation agrees with DLB_ARGS */
static void job_print() {
    for (int i = 0; i < N; ++i) for (auto &t : tokens(O[i], true)) for (int ext = 0; ext < 2; ++ext) {
        if (!mc::begin_case(mc::fmt("print%d ", ext) + t)) continue;
        static options_t o; string exp[N]; Src s{t.c_str(), 0}; expect(s, exp); nat::cap(); string out;
        if (!nat::run([&] { options_init(&o, t.c_str()); nat::cap(); options_print_variables(&o, ext); })) mc::bad("abort", "printing the options aborts: %s", nat::out().substr(0, 200).c_str());
        else { out = nat::out(); for (int j = 0; j < N && !mc::is_bad(); ++j) { string key = string("\n") + O[j].name + ":"; size_t at = out.find(key); bool vis = !(O[j].fl & (DEP | HID)) && (ext || !(O[j].fl & ADV));
            if (at == string::npos) { string k2 = string("] ") + O[j].name + ":"; at = out.find(string(O[j].name) + ":\t"); if (at == string::npos) at = out.find(string(O[j].name) + ":\n"); if (at != string::npos) --at; }
            if (vis != (at != string::npos)) { mc::bad("listing", "%s is %s the listing", O[j].name, vis ? "not in" : "in"); break; }
            if (!vis) continue; at = out.find_first_not_of("\t\n ", at + key.size());
            if (exp[j] != "" && exp[j].size() < 62 && out.compare(at, exp[j].size() + 1, exp[j] + " ")) mc::bad("listing", "%s is listed as \"%s\", its value is \"%s\"", O[j].name, out.substr(at, 30).c_str(), exp[j].c_str()); } }
        options_finalize(&o); mc::eval(); mc::end_case();
    }
    for (int i = 0; i < N; ++i) if (O[i].t != P) for (auto &t : tokens(O[i], true)) for (int other = 0; other < 2; ++other) {
        string e = other ? "--drom=no " + t + "\t--drom" : t; if (!mc::begin_case("entry env=" + show(e.c_str()))) continue;
        static options_t o, d; static char raw[8192]; setenv("DLB_ARGS", e.c_str(), 1); nat::cap(); string cv, gv; Opt &p = O[i];
        if (!nat::run([&] { options_init(&o, 0); options_init(&d, "--lewi-mpi=no"); memset(raw, 0x77, sizeof raw); options_parse_entry(p.name, raw); })) mc::bad("abort", "the library aborts: %s", nat::out().substr(0, 200).c_str());
        else if (p.t == S ? strcmp(raw, (char *)&o + p.off) : memcmp(raw, (char *)&o + p.off, p.sz)) { string v, c; if (!(p.fl & DEP) || (given(e, p, v) && value_of(p.t, v, c))) mc::bad("entry", "%s read on its own differs from its value after initialisation", p.name); }
        options_finalize(&o); options_finalize(&d); unsetenv("DLB_ARGS"); mc::eval(); mc::end_case();
    }
}
void mc_register(void) {
    for (int p = 0; p < 4; ++p) { mc::job(mc::fmt("single.%d", p), [p] { job_single(p, 4); }, 5); mc::job(mc::fmt("pairs.%d", p), [p] { job_pairs(p, 4); }, 5); mc::job(mc::fmt("set.%d", p), [p] { job_set(p, 4); }, 5); mc::job(mc::fmt("junk.%d", p), [p] { job_junk(p, 4); }, 9); }
    mc::job("subsets", job_subsets, 5); mc::job("long", job_long, 6); mc::job("print", job_print, 4);
}
