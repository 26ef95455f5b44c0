/* TALP report files: whatever was recorded is in the file, once and exactly, and the file is well formed, for every format,
 * number of records, content of the names and value of the fields; checked with independent parsers. */
#include <dirent.h>
#include "nat.h"
#include "records.h"
static int salt;
static int64_t val() { return 1000 + 7 * ++salt; }
static dlb_pop_metrics_t mkpop(const string &name) {
    dlb_pop_metrics_t m; memset(&m, 0, sizeof m); snprintf(m.name, DLB_MONITOR_NAME_MAX, "%s", name.c_str());
    for (auto &f : PF) { char *p = (char *)&m + f.off; switch (f.kind) { case 0: *(int *)p = val(); break; case 1: *(int64_t *)p = val(); break; case 2: *(float *)p = val() / 8.0f; break; case 3: *(double *)p = val() * 1e6; break; case 4: *(float *)p = (++salt % 97 + 1) / 100.0f; } }
    return m;
}
static process_record_t mkproc(int rank, const string &host, const string &cpus) {
    process_record_t r; memset(&r, 0, sizeof r); for (auto &f : RF) { char *p = (char *)&r + f.off; switch (f.kind) { case 0: *(int *)p = val(); break; case 1: *(int64_t *)p = val(); break; case 2: *(float *)p = val() / 8.0f; break; } }
    r.rank = rank; snprintf(r.hostname, sizeof r.hostname, "%s", host.c_str()); snprintf(r.cpuset, sizeof r.cpuset, "[%s]", cpus.c_str()); snprintf(r.cpuset_quoted, sizeof r.cpuset_quoted, "\"%s\"", cpus.c_str()); return r;
}
static Node mknode(int id, int n) { Node r; r.id = id; for (int i = 0; i < n; ++i) { process_in_node_record_t p; p.pid = val(); p.mpi_time = val(); p.useful_time = val(); r.p.push_back(p); } for (auto &t : r.t) t = val(); return r; }
static void record(const Data &d, const vector<int> &order = {}) {
    for (auto &m : d.pop) talp_output_record_pop_metrics(&m);
    talp_output_record_resources(d.res[0], d.res[1], d.res[2]);
    for (auto &n : d.node) { size_t sz = sizeof(node_record_t) + n.p.size() * sizeof(process_in_node_record_t); node_record_t *r = (node_record_t *)malloc(sz); r->node_id = n.id; r->nelems = n.p.size(); r->avg_useful_time = n.t[0]; r->avg_mpi_time = n.t[1]; r->max_useful_time = n.t[2]; r->max_mpi_time = n.t[3]; for (size_t i = 0; i < n.p.size(); ++i) r->processes[i] = n.p[i]; talp_output_record_node(r); free(r); }
    for (auto &g : d.proc) for (size_t i = 0; i < g.r.size(); ++i) talp_output_record_process(g.name.c_str(), &g.r[order.empty() ? i : order[i]], g.r.size());
}
/* ---- parsers */
struct PX { const string &s; size_t i = 0; bool ok = true; PX(const string &x) : s(x) {}
    static string text(const string &t, bool &ok) { string r; for (size_t i = 0; i < t.size(); ++i) { if (t[i] == '<' || t[i] == '>') { ok = false; } if (t[i] != '&') { r += t[i]; continue; } size_t e = t.find(';', i); if (e == string::npos) { ok = false; return r; } string n = t.substr(i + 1, e - i - 1); if (n == "lt") r += '<'; else if (n == "gt") r += '>'; else if (n == "amp") r += '&'; else if (n == "quot") r += '"'; else if (n == "apos") r += '\''; else if (n.size() > 1 && n[0] == '#') r += (char)(n[1] == 'x' ? strtol(n.c_str() + 2, nullptr, 16) : atoi(n.c_str() + 1)); else ok = false; i = e; } return r; }
    void ws() { while (i < s.size() && strchr(" \t\r\n", s[i])) ++i; }
    J elem(string &name) { J j; j.t = 'o'; if (i >= s.size() || s[i] != '<') { ok = false; return j; } size_t e = s.find('>', i); if (e == string::npos) { ok = false; return j; } name = s.substr(i + 1, e - i - 1); for (char c : name) if (!isalnum(c)) ok = false; i = e + 1; size_t b = i;
        while (ok) { size_t lt = s.find('<', i); if (lt == string::npos) { ok = false; break; } if (s[lt + 1] == '/') { if (j.m.empty()) { j.t = 's'; j.s = text(s.substr(b, lt - b), ok); } else for (size_t k = i; k < lt; ++k) if (!strchr(" \t\r\n", s[k])) ok = false; size_t g = s.find('>', lt); if (g == string::npos || s.substr(lt + 2, g - lt - 2) != name) { ok = false; break; } i = g + 1; break; } for (size_t k = i; k < lt; ++k) if (!strchr(" \t\r\n", s[k])) ok = false; i = lt; string n; J c = elem(n); j.m.push_back({n, c}); }
        return j; }
    J all() { J j; if (s.compare(0, 5, "<?xml")) { ok = false; return j; } i = s.find("?>"); if (i == string::npos) { ok = false; return j; } i += 2; ws(); string n; j = elem(n); ws(); if (i != s.size() || n != "root") ok = false; return j; } };
static bool csv(const string &s, vector<vector<string>> &rows) {
    rows.clear(); size_t i = 0; if (!s.empty() && s.back() != '\n') return false;
    while (i < s.size()) { vector<string> r; for (;;) { string c; if (i < s.size() && s[i] == '"') { ++i; for (;;) { if (i >= s.size()) return false; if (s[i] == '"') { if (i + 1 < s.size() && s[i + 1] == '"') { c += '"'; i += 2; continue; } ++i; break; } c += s[i++]; } if (i >= s.size() || (s[i] != ',' && s[i] != '\n')) return false; } else while (i < s.size() && s[i] != ',' && s[i] != '\n') { if (s[i] == '"') return false; c += s[i++]; }
            r.push_back(c); if (i >= s.size()) return false; if (s[i++] == '\n') break; }
        rows.push_back(r); }
    return true;
}
static void check_xml(const string &t, const Data &d) {
    PX p(t); J j = p.all(); if (!p.ok) { bad("syntax", "invalid XML near byte %zu: %s", p.i, esc(t.substr(p.i > 40 ? p.i - 40 : 0, 80)).c_str()); return; }
    if (!jobj(&j, 3 + d.pop.size() + d.node.size() + d.proc.size(), "root")) return; const J *r = j.get("resources"); if (!jobj(r, 3, "resources")) return; if (!is(r->get("numCpus"), num(d.res[0])) || !is(r->get("numNodes"), num(d.res[1])) || !is(r->get("numMpiRanks"), num(d.res[2]))) NO("resources");
    size_t a = 0, b = 0, c = 0;
    for (auto &e : j.m) {
        if (e.first == "Application") { if (a >= d.pop.size()) NO("too many"); auto &x = d.pop[a++]; if (!jobj(&e.second, NPF + 1, "Application")) return; if (!is(e.second.get("name"), x.name)) NO("region called %s instead of %s", esc(e.second.get("name") ? e.second.get("name")->s : "").c_str(), esc(x.name).c_str()); if (!jfields(e.second, x, PF, NPF, "region")) return; }
        else if (e.first == "node") { if (b >= d.node.size()) NO("too many"); auto &n = d.node[b++]; if (!jobj(&e.second, 3 + n.p.size(), "node")) return; if (!is(e.second.get("id"), num(n.id))) NO("node id"); size_t k = 0; for (auto &q : e.second.m) if (q.first == "process") { if (k >= n.p.size()) NO("processes"); auto &x = n.p[k++]; if (!is(q.second.get("id"), num(x.pid)) || !is(q.second.get("usefulTime"), num(x.useful_time)) || !is(q.second.get("mpiTime"), num(x.mpi_time))) NO("process of node"); }
            const J *av = e.second.get("nodeAvg"), *mx = e.second.get("nodeMax"); if (!jobj(av, 2, "nodeAvg") || !jobj(mx, 2, "nodeMax")) return; if (!is(av->get("usefulTime"), num(n.t[0])) || !is(av->get("mpiTime"), num(n.t[1])) || !is(mx->get("usefulTime"), num(n.t[2])) || !is(mx->get("mpiTime"), num(n.t[3]))) NO("node times"); }
        else if (e.first == "Process") { if (c >= d.proc.size()) NO("too many"); auto &g = d.proc[c++]; if (!jobj(&e.second, 1 + g.r.size(), "Process")) return; if (!is(e.second.get("name"), g.name)) NO("processes of region %s instead of %s", esc(e.second.get("name") ? e.second.get("name")->s : "").c_str(), esc(g.name).c_str()); size_t k = 0;
            for (auto &q : e.second.m) if (q.first == "process") { if (k >= g.r.size()) NO("processes"); auto &x = g.r[k++]; if (!jobj(&q.second, NRF + 2, "process")) return; if (!jfields(q.second, x, RF, NRF, "process")) return; string cs = x.cpuset, cp = q.second.get("cpuset") ? q.second.get("cpuset")->s : ""; cs = cs.substr(1, cs.size() - 2); if (!is(q.second.get("hostname"), x.hostname) || (cp != cs && cp != "\"" + cs + "\"")) NO("host or CPUs of a process"); } }
    }
}
typedef vector<vector<string>> Rows;
/* the rows of one kind of records in a CSV file that begins with one header */
static bool header(const Rows &r, size_t n, map<string, int> &col) { col.clear(); if (r.empty() || r[0].size() != n) { bad("content", "CSV header of %zu columns instead of %zu", r.empty() ? 0 : r[0].size(), n); return false; } for (size_t i = 0; i < n; ++i) if (!col.insert({r[0][i], (int)i}).second) { bad("content", "column %s repeated", r[0][i].c_str()); return false; } return true; }
template<class R> static bool cfields(const vector<string> &row, map<string, int> &col, const R &r, const Field *f, int n, const char *what) { for (int i = 0; i < n; ++i) { auto it = col.find(f[i].csv); if (it == col.end() || !same(f[i], &r, row[it->second])) { bad("content", "CSV %s: %s is %s", what, f[i].csv, it == col.end() ? "missing" : row[it->second].c_str()); return false; } } return true; }
static bool parse_csv(const string &t, Rows &r) { if (!csv(t, r)) { bad("syntax", "invalid CSV: %s", esc(t.substr(t.size() > 150 ? t.size() - 150 : 0)).c_str()); return false; } for (auto &x : r) if (x.size() != r[0].size()) { bad("syntax", "CSV row of %zu columns instead of %zu", x.size(), r[0].size()); return false; } return true; }
static void csv_pop(const string &t, const vector<dlb_pop_metrics_t> &v) { Rows r; map<string, int> col; if (!parse_csv(t, r) || !header(r, NPF + 1, col)) return; if (r.size() != 1 + v.size()) NO("%zu regions in CSV instead of %zu", r.size() - 1, v.size()); for (size_t i = 0; i < v.size(); ++i) { if (!col.count("name") || r[i + 1][col["name"]] != v[i].name) NO("region called %s instead of %s", esc(r[i + 1][0]).c_str(), esc(v[i].name).c_str()); if (!cfields(r[i + 1], col, v[i], PF, NPF, "region")) return; } }
static void csv_node(const string &t, const vector<Node> &v) { Rows r; map<string, int> col; if (!parse_csv(t, r) || !header(r, 8, col)) return; size_t k = 1; for (auto &n : v) for (auto &p : n.p) { if (k >= r.size()) NO("node rows"); auto &x = r[k++]; int64_t w[8] = {n.id, p.pid, p.useful_time, p.mpi_time, n.t[0], n.t[1], n.t[2], n.t[3]}; const char *c[8] = {"NodeId", "ProcessId", "ProcessUsefulTime", "ProcessMPITime", "NodeAvgUsefulTime", "NodeAvgMPITime", "NodeMaxUsefulTime", "NodeMaxMPITime"}; for (int i = 0; i < 8; ++i) if (!col.count(c[i]) || x[col[c[i]]] != num(w[i])) NO("CSV node: %s is %s", c[i], x[i].c_str()); } if (k != r.size()) NO("node rows"); }
static void csv_proc(const string &t, const vector<Region> &v) { Rows r; map<string, int> col; if (!parse_csv(t, r) || !header(r, NRF + 3, col)) return; size_t k = 1; for (auto &g : v) for (auto &p : g.r) { if (k >= r.size()) NO("too few process rows"); auto &x = r[k++]; string cs = p.cpuset; if (x[col["Region"]] != g.name || x[col["Hostname"]] != p.hostname || x[col["CpuSet"]] != cs.substr(1, cs.size() - 2)) NO("CSV process: region %s host %s CPUs %s", esc(x[col["Region"]]).c_str(), x[col["Hostname"]].c_str(), x[col["CpuSet"]].c_str()); if (!cfields(x, col, p, RF, NRF, "process")) return; } if (k != r.size()) NO("too many process rows"); }
static vector<string> lines(const string &t) { vector<string> r; size_t i = 0; while (i < t.size()) { size_t e = t.find('\n', i); if (e == string::npos) e = t.size(); r.push_back(t.substr(i, e - i)); i = e + 1; } return r; }
/* "### key:    value" */
static bool kv(const vector<string> &l, size_t &i, const string &key, string &v) { for (; i < l.size(); ++i) { string h = "### " + key + ":"; if (!l[i].compare(0, h.size(), h)) { v = l[i++].substr(h.size()); while (!v.empty() && v[0] == ' ') v.erase(0, 1); return true; } } return false; }
static void check_txt(const string &t, const Data &d) {
    auto l = lines(t); size_t i = 0; string v; if (!kv(l, i, "DLB Version", v) || !kv(l, i, "Timestamp", v)) NO("no version or time");
    if (!kv(l, i, "Number of CPUs", v) || v != num(d.res[0]) || !kv(l, i, "Number of Nodes", v) || v != num(d.res[1]) || !kv(l, i, "Number of MPI processes", v) || v != num(d.res[2])) NO("resources");
    for (auto &m : d.pop) { if (!kv(l, i, "Name", v) || v != m.name) NO("region %s is called %s", m.name, v.c_str()); if (m.elapsed_time <= 0) continue; for (auto &f : PF) if (!kv(l, i, f.txt, v) || !same(f, &m, v)) NO("text: %s is %s", f.txt, v.c_str()); }
    for (auto &n : d.node) { auto find = [&](const string &s) { for (; i < l.size(); ++i) if (l[i].find(s) != string::npos) return true; return false; }; if (!find(fmt("Node %4d", n.id))) NO("node"); for (auto &p : n.p) if (!find(fmt(" %d ", p.pid)) || l[i].find(fmt("%e", p.useful_time / 1e9)) == string::npos || l[i].find(fmt("%e", p.mpi_time / 1e9)) == string::npos) NO("process of node %s", i < l.size() ? l[i].c_str() : ""); if (!n.p.empty()) for (int k = 0; k < 2; ++k) if (!find(k ? "Node Max" : "Node Avg") || l[i].find(fmt("%e", n.t[2 * k] / 1e9)) == string::npos || l[i].find(fmt("%e", n.t[2 * k + 1] / 1e9)) == string::npos) NO("node times"); }
    for (auto &g : d.proc) for (auto &p : g.r) { if (!kv(l, i, "Name", v) || v != g.name) NO("process of region %s", v.c_str()); if (!kv(l, i, "Process", v) || v != fmt("%d (%s)", p.pid, p.hostname)) NO("process %s", v.c_str()); size_t k0 = i; for (auto &f : RF) if (f.txt) { size_t k = k0; if (!kv(l, k, f.txt, v)) NO("text: no %s", f.txt); if (v.size() > 3 && v.substr(v.size() - 3) == " ns") v.resize(v.size() - 3); if (!same(f, &p, v)) NO("text: %s is %s", f.txt, v.c_str()); i = std::max(i, k); } }
}
/* summary printed by the process: has the name and times of everything */
static void check_out(const string &t, const Data &d) {
    auto l = lines(t); for (auto &x : l) { size_t p = x.find("###"); if (p != string::npos) x = x.substr(p); } size_t i = 0; string v;
    for (auto &m : d.pop) { if (!kv(l, i, "Name", v) || v != m.name) NO("printed: region %s is called %s", m.name, v.c_str()); size_t k = i; if (m.elapsed_time > 0) { if (m.mpi_parallel_efficiency > 0) for (int f = 22; f <= 26; ++f) if (!kv(l, k, PF[f].txt, v) || !same(PF[f], &m, v)) NO("printed: %s is %s", PF[f].txt, v.c_str()); if (m.omp_parallel_efficiency > 0) for (int f = 27; f <= 30; ++f) if (!kv(l, k, PF[f].txt, v) || !same(PF[f], &m, v)) NO("printed: %s is %s", PF[f].txt, v.c_str()); } i = k; }
    for (auto &n : d.node) { auto find = [&](const string &s) { for (; i < l.size(); ++i) if (l[i].find(s) != string::npos) return true; return false; }; if (!find(fmt("Node %4d", n.id))) NO("printed: node"); for (auto &p : n.p) if (!find(fmt(" %d ", p.pid)) || l[i].find(fmt("%e", p.useful_time / 1e9)) == string::npos || l[i].find(fmt("%e", p.mpi_time / 1e9)) == string::npos) NO("printed: process of node"); }
    for (auto &g : d.proc) for (auto &p : g.r) { if (!kv(l, i, "Name", v) || v != g.name) NO("printed: process of region %s", v.c_str()); if (!kv(l, i, "Process", v) || v != fmt("%d (%s)", p.pid, p.hostname)) NO("printed: process %s", v.c_str()); if (!kv(l, i, "Useful time", v) || v != fmt("%ld ns", (long)p.monitor.useful_time)) NO("printed: useful time %s", v.c_str()); }
}
/* ---- running the library */
static string dir;
static void wipe_in(const string &d) { DIR *p = opendir(d.c_str()); if (!p) return; while (dirent *e = readdir(p)) { string f = d + "/" + e->d_name; struct stat st; if (!lstat(f.c_str(), &st) && S_ISREG(st.st_mode)) unlink(f.c_str()); } closedir(p); }
static void wipe() { wipe_in(dir); for (const char *d : {"d.json", "d.x"}) wipe_in(dir + "/" + d); }
static void cleanup() { if (dir.empty()) return; wipe(); for (const char *d : {"d.json", "d.x"}) rmdir((dir + "/" + d).c_str()); rmdir((dir + "/ro.d").c_str()); int r = system(("rm -rf " + dir + "/de").c_str()); (void)r; rmdir(dir.c_str()); dir.clear(); }
static locale_t comma; static unsigned turn;
static void setup() { turn = 0; if (!dir.empty()) return; char t[] = "/tmp/vreport.XXXXXX"; dir = mkdtemp(t); int r = system(("localedef -i de_DE -f ISO-8859-1 " + dir + "/de 2>/dev/null").c_str()); (void)r; setenv("LOCPATH", dir.c_str(), 1); comma = newlocale(LC_ALL_MASK, "de", 0); if (!comma) { comma = newlocale(LC_ALL_MASK, "C.UTF-8", 0); mc::note_bound("no locale with decimal comma is available"); } }
static string slurp(const string &p, bool &ex) { string r; FILE *f = fopen(p.c_str(), "r"); ex = f; if (f) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); } return r; }
static void lib(const std::function<void()> &f) {
    /* the application, or only this thread, uses a locale with a decimal comma */
    if (turn % 3 == 0) uselocale(comma); else if (turn % 3 == 1) setlocale(LC_ALL, "de"); ++turn; struct Back { ~Back() { uselocale(LC_GLOBAL_LOCALE); setlocale(LC_ALL, "C"); } } back;
    nat::cap(); locale_t before = uselocale((locale_t)0); if (!nat::run(f)) bad("abort", "the library aborts: %s", nat::out().substr(0, 200).c_str()); if (uselocale((locale_t)0) != before) { bad("locale", "the locale of the thread has changed"); } }
static string stem = "t";   /* of the output file */
static const char *EXT[] = {"json", "xml", "csv", "txt", "", "stdout"};
static void check_file(int e, const Data &d) {
    bool ex; string base = dir + "/" + stem, path = base + (e < 4 ? string(".") + EXT[e] : ""), t;
    if (e == 5) { check_out(nat::out(), d); return; }
    int kinds = !d.pop.empty() + !d.node.empty() + !d.proc.empty();
    if (e == 2 && kinds > 1) { slurp(path, ex); if (ex) NO("unexpected %s", path.c_str());
        string a = slurp(base + "-pop.csv", ex); if (ex != !d.pop.empty()) NO("pop file"); if (ex) csv_pop(a, d.pop); if (mc::is_bad()) return; a = slurp(base + "-node.csv", ex); if (ex != !d.node.empty()) NO("node file"); if (ex) csv_node(a, d.node); if (mc::is_bad()) return; a = slurp(base + "-process.csv", ex); if (ex != !d.proc.empty()) NO("process file"); if (ex) csv_proc(a, d.proc); return; }
    t = slurp(path, ex); if (ex != (kinds > 0)) NO("the file is %swritten", ex ? "" : "not "); if (!ex) return;
    if (e == 0) check_json(t, d); else if (e == 1) check_xml(t, d); else if (e == 2) { if (!d.pop.empty()) csv_pop(t, d.pop); else if (!d.node.empty()) csv_node(t, d.node); else csv_proc(t, d.proc); } else check_txt(t, d);
}
static string path_of(int e) { return dir + "/" + stem + (e < 4 ? string(".") + EXT[e] : ""); }
static void write(int e, const Data &d, const vector<int> &order = {}) { string p = path_of(e); lib([&] { record(d, order); talp_output_finalize(e == 5 ? nullptr : p.c_str()); }); }
static void one(const string &desc, int e, const Data &d, const vector<int> &order = {}) {
    if (!mc::begin_case(desc)) return; setup(); write(e, d, order); if (!mc::is_bad()) check_file(e, d);
    /* nothing remains for a later report */
    if (!mc::is_bad()) { wipe(); lib([&] { talp_output_finalize(path_of(0).c_str()); }); bool ex; slurp(path_of(0), ex); if (!mc::is_bad() && ex) bad("content", "records remain after the report"); }
    wipe(); mc::eval(!d.empty()); mc::end_case();
}
static Data shape(int np, const vector<int> &nodes, const vector<int> &regs) { salt = 0; Data d; for (int i = 0; i < np; ++i) d.pop.push_back(mkpop(fmt("Region %d", i))); for (size_t i = 0; i < nodes.size(); ++i) d.node.push_back(mknode(i, nodes[i])); for (size_t i = 0; i < regs.size(); ++i) { Region g; g.name = fmt("Proc %zu", i); for (int k = 0; k < regs[i]; ++k) g.r.push_back(mkproc(k, fmt("host%d", k), k ? "0-3" : "2")); d.proc.push_back(g); } d.res[0] = 12; d.res[1] = 3; d.res[2] = 4; return d; }
static void job_shapes() {
    vector<vector<int>> ns = {{}, {0}, {1}, {2}, {0, 2}, {2, 1}, {1, 0}, {3, 1, 2}}, rs = {{}, {1}, {2}, {3}, {1, 1}, {2, 2}, {3, 3}, {2, 2, 2}};
    for (int e = 0; e < 6; ++e) for (int np = 0; np <= 3; ++np) for (auto &n : ns) for (auto &r : rs) { vector<int> o; if (!r.empty()) for (int i = 0; i < r[0]; ++i) o.push_back(i); do { string s; for (int x : n) s += fmt(" %d", x); s += ";"; for (int x : r) s += fmt(" %d", x); s += "; order"; for (int x : o) s += fmt(" %d", x); one(fmt("%s: %d regions; nodes of%s", EXT[e], np, s.c_str()), e, shape(np, n, r), o); } while (std::next_permutation(o.begin(), o.end())); }
    mc::note_bound("up to 3 regions, 3 nodes of up to 3 processes and 3 regions of up to 3 processes, recorded in any order, in every format");
}
static void job_names(int part) {
    vector<string> al = {"a", " ", "\"", "\\", "<", ">", "&", "'", ",", ";", "%", "/", "\xc3\xa9", "\t", "\n", "\x01", "]]>", "{", ":", "%s%n"}; vector<string> v; for (auto &a : al) { v.push_back(a); for (auto &b : al) { v.push_back(a + b); if (mc::level >= 1) for (auto &c : al) v.push_back(a + b + c); } }
    v.push_back(string(127, 'x')); v.push_back(string(127, '"')); v.push_back(string(127, '&')); v.push_back(string(127, '\\'));  v.push_back(string(126, '\x01') + "a");
    for (int e = part; e < 6; e += 2) for (auto &s : v) { bool ctl = s.find_first_of("\t\n\x01") != string::npos; if (e >= 3 && (ctl || s[0] == ' ')) continue; if (e == 1 && (s.find('\x01') != string::npos)) continue; if (e == 1 && ctl && s.find_first_not_of("\t\n ") == string::npos) continue;
        for (int w = 0; w < 3; ++w) { Data d = shape(1, {}, {2}); Data x = d; if (w == 0) { snprintf(d.pop[0].name, DLB_MONITOR_NAME_MAX, "%s", s.c_str()); d.proc[0].name = d.pop[0].name; } else if (w == 1) { d.pop.clear(); d.proc[0].name = s; if (s.size() > 20) continue; } else { if (s.size() > 20 || e >= 3) continue; d.pop.clear(); snprintf(d.proc[0].r[1].hostname, sizeof d.proc[0].r[1].hostname, "%s", s.c_str()); } one(fmt("%s: name %d \"%s\"", EXT[e], w, esc(s).c_str()), e, d); } }
    mc::note_bound(mc::level >= 1 ? "names of up to 3 of 20 special sequences" : "names of up to 2 of 20 special sequences, and of maximum length");
}
static void job_values() {
    vector<int64_t> vs = {0, 1, 9, 10, 999999999, 1000000000, INT32_MAX, (int64_t)INT32_MAX + 1, 4294967296LL, 1LL << 53, INT64_MAX, -1}; vector<double> fs = {0, 1, 0.004, 0.005, 0.994, 0.996, 0.5, 99.95, 1e6, 12345.678};
    for (int e = 0; e < 6; ++e) {
        for (auto &f : PF) for (int k = 0; k < 12; ++k) { Data d = shape(2, {}, {}); char *p = (char *)&d.pop[0] + f.off; bool ctr = !strcmp(f.json, "cycles") || !strcmp(f.json, "instructions"); if (f.kind == 0) { if (vs[k] > INT32_MAX || vs[k] < 0) continue; *(int *)p = vs[k]; } else if (f.kind == 1) { if (vs[k] < 0) continue; *(int64_t *)p = vs[k]; } else if (f.kind == 3) { if (vs[k] < 0 && !ctr) continue; *(double *)p = (double)(vs[k] == INT64_MAX ? 1LL << 60 : vs[k]); } else { if (k >= (int)fs.size() || (f.kind == 4 && fs[k] > 1)) continue; *(float *)p = fs[k]; } one(fmt("%s: %s value %d", EXT[e], f.json, k), e, d); }
        for (auto &f : RF) for (int k = 0; k < 12; ++k) { if (!strcmp(f.json, "rank")) continue; Data d = shape(0, {}, {2}); char *p = (char *)&d.proc[0].r[1] + f.off; bool ctr = !strcmp(f.json, "cycles") || !strcmp(f.json, "instructions"); if (f.kind == 0) { if (vs[k] > INT32_MAX || vs[k] < 0) continue; *(int *)p = vs[k]; } else if (f.kind == 1) { if (vs[k] < 0 && !ctr) continue; *(int64_t *)p = vs[k]; } else { if (k >= (int)fs.size()) continue; *(float *)p = fs[k]; } one(fmt("%s: process %s value %d", EXT[e], f.json, k), e, d); }
        for (int w = 0; w < 6; ++w) for (int k = 0; k < 11; ++k) { Data d = shape(0, {2, 1}, {}); if (w < 4) d.node[0].t[w] = vs[k]; else if (w == 4) d.node[0].p[1].useful_time = vs[k]; else d.node[0].p[1].mpi_time = vs[k]; one(fmt("%s: node time %d value %d", EXT[e], w, k), e, d); }
        for (int w = 0; w < 3; ++w) for (int k = 0; k < 7; ++k) { Data d = shape(1, {}, {}); d.res[w] = vs[k]; one(fmt("%s: resource %d value %d", EXT[e], w, k), e, d); } }
    mc::note_bound("every field of every kind of record at 10-12 boundary values");
}
/* several runs, or several processes of an application without MPI, with the same file */
static void job_append() {
    vector<Data> sh = {shape(0, {}, {}), shape(1, {}, {}), shape(2, {}, {}), shape(0, {1}, {}), shape(0, {}, {2}), shape(1, {}, {1}), shape(1, {2}, {2}), shape(0, {2}, {1})}; int n = sh.size(), depth = mc::level >= 1 ? 4 : 3;
    for (int e : {2, 0, 3}) { long total = 1; for (int i = 0; i < depth; ++i) total *= n; for (long x = 0; x < total; ++x) { vector<int> q; long y = x; for (int i = 0; i < depth; ++i) { q.push_back(y % n); y /= n; }
        string s; for (int k : q) s += fmt(" %d", k); if (!mc::begin_case(fmt("%s: runs%s", EXT[e], s.c_str()))) continue; setup();
        Data plain, split; bool mixed = false; int kind = 0; Data last; bool any = false;
        for (int k : q) { auto &d = sh[k]; write(e, d); if (mc::is_bad()) break; if (d.empty()) continue; any = true; last = d; int kinds = !d.pop.empty() + !d.node.empty() + !d.proc.empty(); auto &t = kinds > 1 ? split : plain; if (kinds == 1) { int kk = !d.pop.empty() ? 1 : !d.node.empty() ? 2 : 3; if (kind && kind != kk) mixed = true; kind = kk; } t.pop.insert(t.pop.end(), d.pop.begin(), d.pop.end()); t.node.insert(t.node.end(), d.node.begin(), d.node.end()); t.proc.insert(t.proc.end(), d.proc.begin(), d.proc.end()); }
        if (!mc::is_bad()) { bool ex; if (e != 2) { if (any) check_file(e, last); else { slurp(path_of(e), ex); if (ex) bad("content", "file without data"); } }
            else { string a = slurp(path_of(2), ex); if (ex != (kind != 0)) bad("content", "file %s", ex ? "without data" : "missing"); else if (ex && !mixed) { if (kind == 1) csv_pop(a, plain.pop); else if (kind == 2) csv_node(a, plain.node); else csv_proc(a, plain.proc); }
                if (!mc::is_bad()) { a = slurp(dir + "/t-pop.csv", ex); if (ex != !split.pop.empty()) bad("content", "pop file"); else if (ex) csv_pop(a, split.pop); } if (!mc::is_bad()) { a = slurp(dir + "/t-node.csv", ex); if (ex != !split.node.empty()) bad("content", "node file"); else if (ex) csv_node(a, split.node); } if (!mc::is_bad()) { a = slurp(dir + "/t-process.csv", ex); if (ex != !split.proc.empty()) bad("content", "process file"); else if (ex) csv_proc(a, split.proc); } } }
        wipe(); mc::eval(any); mc::end_case(); } }
    mc::note_bound(fmt("every sequence of %d reports of 8 shapes to the same file", depth));
}
/* the file cannot be written: no data is lost silently, nothing else happens */
static void job_errors() {
    for (auto &p : vector<string>{"/nonexistent/t", "/proc/t", "ro.d", "", ".", "x.y/t"}) for (int e = 0; e < 4; ++e) for (int k = 0; k < 3; ++k) { if (!mc::begin_case(fmt("cannot write \"%s\" %s %d", p.c_str(), EXT[e], k))) continue; setup(); mkdir((dir + "/ro.d").c_str(), 0700);
        string f = p == "ro.d" ? dir + "/ro.d" : p.empty() || p[0] == '/' ? p : dir + "/none/" + p; if (p != "ro.d" && !p.empty()) f += string(".") + EXT[e]; Data d = k == 0 ? shape(1, {}, {}) : k == 1 ? shape(1, {1}, {1}) : shape(0, {}, {1});
        lib([&] { record(d); talp_output_finalize(f.c_str()); }); if (!mc::is_bad() && nat::out().find("annot open") == string::npos) bad("content", "no warning: %s", nat::out().substr(0, 200).c_str()); mc::eval(); mc::end_case(); }
}
/* the format is given by the extension of the file alone, whatever the rest of the name is */
static void job_files() {
    for (string st : {"t.1", "t.csv", "t.json", ".t", "d.json/t", "d.x/t", "d.x/../t", "a b", "t-pop", "%s%n", "t.", "T.JSON", "json", "csv.xml"}) for (int e = 0; e < 5; ++e) { if (e == 4 && (st == "t.csv" || st == "t.json" || st == "csv.xml")) continue; setup(); mkdir((dir + "/d.json").c_str(), 0700); mkdir((dir + "/d.x").c_str(), 0700);
        stem = st; for (auto &d : {shape(1, {}, {}), shape(1, {2}, {1}), shape(0, {1}, {2}), shape(0, {}, {1})}) one(fmt("file \"%s\" %s", st.c_str(), EXT[e]), e, d); stem = "t"; }
    mc::note_bound("14 kinds of file name in every format");
}
void mc_register() {
    auto add = [](const char *n, void (*f)(), double w) { mc::job(n, [f] { f(); cleanup(); }, w); };
    add("shapes", job_shapes, 4); add("names.0", [] { job_names(0); }, 6); add("names.1", [] { job_names(1); }, 6); add("values", job_values, 4); add("append", job_append, 4); add("errors", job_errors, 1); add("files", job_files, 1);
}
