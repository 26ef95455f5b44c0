/* The records of TALP report files and the comparison of a JSON file with what should be in it. */
#ifndef RECORDS_H
#define RECORDS_H
extern "C" {
#define class class_
#include "support/talp_output.h"
#undef class
}
#include <fcntl.h>
#include <locale.h>
#include <math.h>
#include <algorithm>
#include <memory>
#include <sys/stat.h>
using std::string; using std::vector; using std::map; using mc::fmt; using mc::bad;
/* ---- what is recorded */
struct Field { const char *json, *csv, *txt; int kind; size_t off; };        /* kind: 0 int, 1 int64, 2 float (.1), 3 double (.0), 4 float (.2) */
#define F(k, m, j, c, t) {j, c, t, k, offsetof(dlb_pop_metrics_t, m)}
static const Field PF[] = {
    F(0, num_cpus, "numCpus", "numCpus", "Number of CPUs"), F(0, num_mpi_ranks, "numMpiRanks", "numMpiRanks", "Number of MPI processes"), F(0, num_nodes, "numNodes", "numNodes", "Number of nodes"), F(2, avg_cpus, "avgCpus", "avgCpus", "Average CPUs"),
    F(3, cycles, "cycles", "cycles", "Cycles"), F(3, instructions, "instructions", "instructions", "Instructions"), F(1, num_measurements, "numMeasurements", "numMeasurements", "Number of measurements"), F(1, num_mpi_calls, "numMpiCalls", "numMpiCalls", "Number of MPI calls"),
    F(1, num_omp_parallels, "numOmpParallels", "numOmpParallels", "Number of OpenMP parallel regions"), F(1, num_omp_tasks, "numOmpTasks", "numOmpTasks", "Number of OpenMP explicit tasks"), F(1, elapsed_time, "elapsedTime", "elapsedTime", "Elapsed Time (ns)"),
    F(1, useful_time, "usefulTime", "usefulTime", "Useful Time (ns)"), F(1, mpi_time, "mpiTime", "mpiTime", "MPI Time (ns)"), F(1, omp_load_imbalance_time, "ompLoadImbalanceTime", "ompLoadImbalanceTime", "OpenMP Load Imbalance Time (ns)"),
    F(1, omp_scheduling_time, "ompSchedulingTime", "ompSchedulingTime", "OpenMP Scheduling Time (ns)"), F(1, omp_serialization_time, "ompSerializationTime", "ompSerializationTime", "OpenMP Serialization Time (ns)"),
    F(3, useful_normd_app, "usefulNormdApp", "usefulNormdApp", "Useful Time normalized to App"), F(3, mpi_normd_app, "mpiNormdApp", "mpiNormdApp", "MPI Time normalized to App"), F(3, max_useful_normd_proc, "maxUsefulNormdProc", "maxUsefulNormdProc", "Maximum useful time across processes"),
    F(3, max_useful_normd_node, "maxUsefulNormdNode", "maxUsefulNormdNode", "Maximum useful time across nodes"), F(3, mpi_normd_of_max_useful, "mpiNormdOfMaxUseful", "mpiNormdOfMaxUseful", "    the process with the max useful time"),
    F(4, parallel_efficiency, "parallelEfficiency", "parallelEfficiency", "Parallel efficiency"), F(4, mpi_parallel_efficiency, "mpiParallelEfficiency", "mpiParallelEfficiency", "MPI Parallel efficiency"), F(4, mpi_communication_efficiency, "mpiCommunicationEfficiency", "mpiCommunicationEfficiency", "  - MPI Communication efficiency"),
    F(4, mpi_load_balance, "mpiLoadBalance", "mpiLoadBalance", "  - MPI Load Balance"), F(4, mpi_load_balance_in, "mpiLoadBalanceIn", "mpiLoadBalanceIn", "      - MPI Load Balance in"), F(4, mpi_load_balance_out, "mpiLoadBalanceOut", "mpiLoadBalanceOut", "      - MPI Load Balance out"),
    F(4, omp_parallel_efficiency, "ompParallelEfficiency", "ompParallelEfficiency", "OpenMP Parallel efficiency"), F(4, omp_load_balance, "ompLoadBalance", "ompLoadBalance", "  - OpenMP Load Balance"), F(4, omp_scheduling_efficiency, "ompSchedulingEfficiency", "ompSchedulingEfficiency", "  - OpenMP Scheduling efficiency"),
    F(4, omp_serialization_efficiency, "ompSerializationEfficiency", "ompSerializationEfficiency", "  - OpenMP Serialization efficiency")};
#undef F
#define F(k, m, j, c, t) {j, c, t, k, offsetof(process_record_t, m)}
static const Field RF[] = {
    F(0, rank, "rank", "Rank", "Rank"), F(0, pid, "pid", "PID", nullptr), F(0, node_id, "nodeId", "NodeId", nullptr), F(0, monitor.num_cpus, "numCpus", "NumCpus", nullptr), F(2, monitor.avg_cpus, "avgCpus", "AvgCpus", nullptr), F(1, monitor.cycles, "cycles", "Cycles", nullptr), F(1, monitor.instructions, "instructions", "Instructions", nullptr),
    F(0, monitor.num_measurements, "numMeasurements", "NumMeasurements", nullptr), F(0, monitor.num_resets, "numResets", "NumResets", nullptr), F(1, monitor.num_mpi_calls, "numMpiCalls", "NumMpiCalls", nullptr), F(1, monitor.num_omp_parallels, "numOmpParallels", "NumOmpParallels", nullptr), F(1, monitor.num_omp_tasks, "numOmpTasks", "NumOmpTasks", nullptr),
    F(1, monitor.elapsed_time, "elapsedTime", "ElapsedTime", "Elapsed time"), F(1, monitor.useful_time, "usefulTime", "UsefulTime", "Useful time"), F(1, monitor.mpi_time, "mpiTime", "MPITime", "Not useful MPI"), F(1, monitor.omp_load_imbalance_time, "ompLoadImbalanceTime", "OMPLoadImbalance", "Not useful OMP Load Imbalance"),
    F(1, monitor.omp_scheduling_time, "ompSchedulingTime", "OMPSchedulingTime", "Not useful OMP Scheduling"), F(1, monitor.omp_serialization_time, "ompSerializationTime", "OMPSerializationTime", "Not useful OMP Serialization")};
#undef F
enum { NPF = sizeof PF / sizeof *PF, NRF = sizeof RF / sizeof *RF };
struct Node { int id; vector<process_in_node_record_t> p; int64_t t[4]; };
struct Region { string name; vector<process_record_t> r; };
struct Data { vector<dlb_pop_metrics_t> pop; vector<Node> node; vector<Region> proc; int res[3] = {0, 0, 0}; bool empty() const { return pop.empty() && node.empty() && proc.empty(); } };
/* ---- parsers */
struct J { char t = 0; string s; vector<std::pair<string, J>> m; const J *get(const string &k) const { const J *r = nullptr; for (auto &x : m) if (x.first == k) { if (r) return nullptr; r = &x.second; } return r; } };
struct PJ { const string &s; size_t i = 0; bool ok = true; PJ(const string &x) : s(x) {}
    void ws() { while (i < s.size() && strchr(" \t\r\n", s[i])) ++i; }
    bool ch(char c) { ws(); if (i < s.size() && s[i] == c) { ++i; return true; } return false; }
    string str() { string r; if (!ch('"')) { ok = false; return r; }
        while (i < s.size() && s[i] != '"') { unsigned char c = s[i++]; if (c < 0x20) { ok = false; return r; } if (c != '\\') { r += c; continue; } if (i >= s.size()) break; char e = s[i++]; switch (e) { case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case '"': case '\\': case '/': r += e; break; case 'u': { if (i + 4 > s.size()) { ok = false; return r; } int v = strtol(s.substr(i, 4).c_str(), nullptr, 16); i += 4; if (v >= 0x80) ok = false; r += (char)v; break; } default: ok = false; return r; } }
        if (i >= s.size()) ok = false; else ++i; return r; }
    J val() { J j; ws(); if (!ok || i >= s.size()) { ok = false; return j; }
        if (s[i] == '"') { j.t = 's'; j.s = str(); return j; }
        if (s[i] == '{') { ++i; j.t = 'o'; if (ch('}')) return j; do { ws(); string k = str(); if (!ok || !ch(':')) { ok = false; return j; } j.m.push_back({k, val()}); } while (ok && ch(',')); if (!ch('}')) ok = false; return j; }
        if (s[i] == '[') { ++i; j.t = 'a'; if (ch(']')) return j; do j.m.push_back({"", val()}); while (ok && ch(',')); if (!ch(']')) ok = false; return j; }
        size_t b = i; if (s[i] == '-') ++i; size_t d = i; while (i < s.size() && isdigit(s[i])) ++i; if (i == d) { ok = false; return j; } if (i < s.size() && s[i] == '.') { ++i; d = i; while (i < s.size() && isdigit(s[i])) ++i; if (i == d) ok = false; } j.t = 'n'; j.s = s.substr(b, i - b); return j; }
    J all() { J j = val(); ws(); if (i != s.size()) ok = false; return j; } };
/* ---- comparison */
static bool same(const Field &f, const void *base, string t) {
    const char *p = (const char *)base + f.off; char *e; while (!t.empty() && t[0] == ' ') t.erase(0, 1); if (t.empty()) return false;
    bool ctr = !strcmp(f.json, "cycles") || !strcmp(f.json, "instructions"); /* negative counters are reported as 0 */
    if (f.kind <= 1) { errno = 0; int64_t v = strtoll(t.c_str(), &e, 10), w = f.kind ? *(int64_t *)p : *(int *)p; if (ctr && w < 0) w = 0; return !*e && !errno && v == w; }
    double v = strtod(t.c_str(), &e), w = f.kind == 3 ? *(double *)p : *(float *)p; if (ctr && w < 0) w = 0; if (*e) return false; double tol = f.kind == 2 ? 0.0501 : f.kind == 3 ? 0.5001 : 0.00501; return fabs(v - w) <= tol + fabs(w) * 1e-6 * (f.kind == 3 ? 1e-6 : 1);
}
static string esc(const string &s) { string r; for (unsigned char c : s) if (c < 32 || c > 126) r += fmt("\\x%02x", c); else r += c; return r; }
#define NO(...) do { bad("content", __VA_ARGS__); return; } while (0)
static bool jobj(const J *j, size_t n, const char *what) { if (!j || j->t != 'o' || j->m.size() != n) { bad("content", "%s: missing, repeated or with other fields than expected (%zu)", what, j ? j->m.size() : 0); return false; } return true; }
template<class R> static bool jfields(const J &j, const R &r, const Field *f, int n, const char *what) { for (int i = 0; i < n; ++i) { const J *v = j.get(f[i].json); if (!v || !same(f[i], &r, v->s)) { bad("content", "%s: %s is %s", what, f[i].json, v ? v->s.c_str() : "missing"); return false; } } return true; }
static bool is(const J *j, const string &s) { return j && j->s == s; }
static string num(int64_t v) { return std::to_string(v); }
static void check_jdata(const J &j, const Data &d);
static void check_json(const string &t, const Data &d) {
    PJ p(t); J j = p.all(); if (!p.ok) { bad("syntax", "invalid JSON near byte %zu: %s", p.i, esc(t.substr(p.i > 40 ? p.i - 40 : 0, 80)).c_str()); return; }
    check_jdata(j, d);
}
static void check_jdata(const J &j, const Data &d) {
    if (!jobj(&j, 3 + !d.pop.empty() + !d.node.empty() + !d.proc.empty(), "root")) return; if (!j.get("dlbVersion") || !j.get("timestamp")) NO("no version or time");
    const J *r = j.get("resources"); if (!jobj(r, 3, "resources")) return; if (!is(r->get("numCpus"), num(d.res[0])) || !is(r->get("numNodes"), num(d.res[1])) || !is(r->get("numMpiRanks"), num(d.res[2]))) NO("resources");
    if (!d.pop.empty()) { const J *a = j.get("Application"); if (!jobj(a, d.pop.size(), "Application")) return; for (size_t i = 0; i < d.pop.size(); ++i) { auto &e = a->m[i]; if (e.first != d.pop[i].name) NO("region %zu is called %s instead of %s", i, esc(e.first).c_str(), esc(d.pop[i].name).c_str()); if (!jobj(&e.second, NPF, "region")) return; if (!jfields(e.second, d.pop[i], PF, NPF, "region")) return; } }
    if (!d.node.empty()) { const J *a = j.get("node"); if (!a || a->t != 'a' || a->m.size() != d.node.size()) NO("nodes"); for (size_t i = 0; i < d.node.size(); ++i) { const J &e = a->m[i].second; auto &n = d.node[i]; if (!jobj(&e, 4, "node")) return; const J *ps = e.get("process"); if (!is(e.get("id"), num(n.id)) || !ps || ps->m.size() != n.p.size()) NO("node %d has %zu processes", n.id, ps ? ps->m.size() : 0);
            for (size_t k = 0; k < n.p.size(); ++k) { const J &q = ps->m[k].second; if (!jobj(&q, 3, "process of node")) return; if (!is(q.get("id"), num(n.p[k].pid)) || !is(q.get("usefulTime"), num(n.p[k].useful_time)) || !is(q.get("mpiTime"), num(n.p[k].mpi_time))) NO("process of node"); }
            const J *av = e.get("nodeAvg"), *mx = e.get("nodeMax"); if (!jobj(av, 2, "nodeAvg") || !jobj(mx, 2, "nodeMax")) return; if (!is(av->get("usefulTime"), num(n.t[0])) || !is(av->get("mpiTime"), num(n.t[1])) || !is(mx->get("usefulTime"), num(n.t[2])) || !is(mx->get("mpiTime"), num(n.t[3]))) NO("node times"); } }
    if (!d.proc.empty()) { const J *a = j.get("Process"); if (!jobj(a, d.proc.size(), "Process")) return; for (size_t i = 0; i < d.proc.size(); ++i) { auto &e = a->m[i]; auto &g = d.proc[i]; if (e.first != g.name) NO("processes of region %s instead of %s", esc(e.first).c_str(), esc(g.name).c_str()); if (e.second.m.size() != g.r.size()) NO("%zu processes", e.second.m.size());
            for (size_t k = 0; k < g.r.size(); ++k) { const J &q = e.second.m[k].second; if (!jobj(&q, NRF + 2, "process")) return; if (!jfields(q, g.r[k], RF, NRF, "process")) return; string c = g.r[k].cpuset; if (!is(q.get("hostname"), g.r[k].hostname) || !is(q.get("cpuset"), c.substr(1, c.size() - 2))) NO("host or CPUs of a process"); } } }
}
#endif
