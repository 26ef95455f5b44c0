/* CPU masks: reading and writing them, set operations, topology queries and orders, against a reference on sets. */
#include "nat.h"
extern "C" {
#define class class_
#include "support/mask_utils.h"
#undef class
}
#include <sched.h>
#include <algorithm>
using std::string; using std::vector; typedef std::set<int> Set;
static cpu_set_t cs(const Set &s) { cpu_set_t m; CPU_ZERO(&m); for (int c : s) CPU_SET(c, &m); return m; }
static Set st(const cpu_set_t &m, int n = CPU_SETSIZE) { Set s; for (int i = 0; i < n; ++i) if (CPU_ISSET(i, &m)) s.insert(i); return s; }
static string show(const Set &s) { string r = "{"; int k = 0; for (int c : s) { if (k++ > 40) { r += ".."; break; } r += std::to_string(c) + " "; } return r + "}"; }
static Set inter(const Set &a, const Set &b) { Set r; for (int c : a) if (b.count(c)) r.insert(c); return r; }
static Set uni(const Set &a, const Set &b) { Set r = a; r.insert(b.begin(), b.end()); return r; }
static Set diff(const Set &a, const Set &b) { Set r; for (int c : a) if (!b.count(c)) r.insert(c); return r; }
static bool sub(const Set &a, const Set &b) { return diff(a, b).empty(); }
static Set bits(unsigned long m) { Set s; for (int i = 0; i < 64; ++i) if (m >> i & 1) s.insert(i); return s; }
static void quiet(const std::function<void()> &f) { nat::cap(); if (!nat::run(f)) mc::bad("abort", "the library aborts: %s", nat::out().substr(0, 200).c_str()); }
static void topo(int n, const vector<Set> &cores, const vector<Set> &nodes) { Set all; for (int i = 0; i < n; ++i) all.insert(i); cpu_set_t sm = cs(all); vector<cpu_set_t> c, d; for (auto &x : cores) c.push_back(cs(x)); for (auto &x : nodes) d.push_back(cs(x)); nat::cap(); mu_testing_set_sys_masks(&sm, c.data(), c.size(), d.data(), d.size()); }
static void flat(int n) { vector<Set> c; for (int i = 0; i < n; ++i) c.push_back({i}); Set all; for (int i = 0; i < n; ++i) all.insert(i); topo(n, c, {all}); }
/* ---- reference text forms */
static string list(const Set &s) { string r; for (auto it = s.begin(); it != s.end();) { int a = *it, b = a; auto j = it; while (++j != s.end() && *j == b + 1) b = *j; if (!r.empty()) r += ","; r += b == a ? mc::fmt("%d", a) : b == a + 1 ? mc::fmt("%d,%d", a, b) : mc::fmt("%d-%d", a, b); it = j; } return r; }
static string hex(const Set &s) { if (s.empty()) return "0x0"; string r; for (int d = *s.rbegin() / 4; d >= 0; --d) { int v = 0; for (int k = 0; k < 4; ++k) if (s.count(4 * d + k)) v |= 1 << k; r += "0123456789abcdef"[v]; } return "0x" + r; }
static string bin(const Set &s) { string r = "0b"; for (int d = s.empty() ? 0 : *s.rbegin(); d >= 0; --d) r += s.count(d) ? '1' : '0'; return r; }
static string oldbin(const Set &s, int n) { string r; for (int i = 0; i < n; ++i) r += s.count(i) ? '1' : '0'; return r + "b"; }
static Set parse(const string &t) { cpu_set_t m; memset(&m, 0x5a, sizeof m); mu_parse_mask(t.c_str(), &m); return st(m); }
static void forms(int n, const Set &s) {
    if (!mc::begin_case(mc::fmt("forms n=%d ", n) + (s.size() > 60 ? list(s) : show(s)))) return;
    quiet([&] {
        cpu_set_t m = cs(s); string t = mu_to_str(&m);
        if (t != "[" + list(s) + "]") { mc::bad("to_str", "%s is written as %s", show(s).c_str(), t.c_str()); return; }
        char *h = mu_parse_to_slurm_format(&m); if (hex(s) != h) mc::bad("slurm", "%s is written as %s for Slurm, expected %s", show(s).c_str(), h, hex(s).c_str()); free(h);
        string q = "\"" + list(s) + "\"";
        vector<size_t> lens = {q.size() + 1, q.size() + 2, q.size() + 50}; size_t k0 = q.size() > 30 ? q.size() - 30 : 0; for (size_t l = 0; l <= q.size(); ++l) if (l < 30 || l >= k0) lens.push_back(l);
        for (size_t l : lens) { char *b = (char *)malloc(l ? l : 1); if (l) b[0] = 0; mu_get_quoted_mask(&m, b, l);
            if (l > q.size()) { if (q != b) mc::bad("quoted", "%s is quoted as %s", show(s).c_str(), b); }
            else if (l >= 2) { if (strlen(b) >= l || b[0] != '"') mc::bad("quoted", "%s does not fit in %zu bytes: wrote %s", q.c_str(), l, b); for (char *p = b; *p; ) if (isdigit(*p)) { int c = strtol(p, &p, 10); if (!s.count(c)) mc::bad("quoted", "%s in %zu bytes is quoted as %s", q.c_str(), l, b); } else ++p; }
            free(b); }
        if (s.empty()) return;
        vector<string> fs = {list(s), hex(s), bin(s), "0X" + hex(s).substr(2), "0B" + bin(s).substr(2), "0x0" + hex(s).substr(2), "0b000" + bin(s).substr(2), "0x" + string(13, '0') + hex(s).substr(2)};
        { string u = hex(s).substr(2); for (auto &c : u) c = toupper(c); fs.push_back("0x" + u); string sep; for (int c : s) sep += (sep.empty() ? "" : ",") + std::to_string(c); fs.push_back(sep); string back; for (int c : s) back = std::to_string(c) + (back.empty() ? "" : ",") + back; fs.push_back(back); string rr; for (int c : s) rr += (rr.empty() ? "" : ",") + std::to_string(c) + "-" + std::to_string(c); fs.push_back(rr); }
        if (n > 1) fs.push_back(oldbin(s, n));
        for (auto &f : fs) if (f.size() <= CPU_SETSIZE && !mc::is_bad()) { Set g = parse(f); if (g != s) mc::bad("parse", "\"%.200s\" is read as %s", f.c_str(), show(g).c_str()); }
        string a = list(s); if (a.size() <= CPU_SETSIZE && hex(s).size() <= CPU_SETSIZE && !mu_equivalent_masks(a.c_str(), hex(s).c_str())) mc::bad("equiv", "%s and %s are not equivalent", a.c_str(), hex(s).c_str());
    });
    mc::eval(!s.empty()); mc::end_case();
}
static vector<Set> structured(int n) {     /* unions of up to two intervals with interesting ends */
    Set e; for (int b : {0, 1, 2, 3, 4, 31, 32, 62, 63, 64, 65, 66, 126, 127, 128, 129, n - 3, n - 2, n - 1}) if (b >= 0 && b < n) e.insert(b);
    vector<Set> iv{{}}; for (int a : e) for (int b : e) if (a <= b) { Set s; for (int i = a; i <= b; ++i) s.insert(i); iv.push_back(s); }
    std::set<Set> r; int step = n > 200 ? 5 : n > 70 ? 3 : 1; for (size_t i = 0; i < iv.size(); ++i) for (size_t j = i; j < iv.size(); j += mc::level >= 2 ? 1 : step) r.insert(uni(iv[i], iv[j]));
    Set ev, th; for (int i = 0; i < n; i += 2) ev.insert(i); for (int i = 1; i < n; i += 3) th.insert(i); r.insert(ev); r.insert(th); return vector<Set>(r.begin(), r.end());
}
static void job_forms_small() { int top = mc::level >= 2 ? 13 : 10; for (int n = 1; n <= top; ++n) { flat(n); for (unsigned m = 0; m < 1u << n; ++m) forms(n, bits(m)); } mc::note_bound(mc::fmt("every set of CPUs on nodes of 1 to %d CPUs", top)); }
static void job_forms_big(vector<int> ns) { for (int n : ns) { flat(n); for (auto &s : structured(n)) forms(n, s); } mc::note_bound("unions of two ranges with ends around word boundaries on larger nodes"); }
/* every string over an alphabet */
static bool ref(const string &s, int n, Set &out) {     /* false: not specified */
    out.clear(); auto all = [&](const string &t, const char *set) { return t.find_first_not_of(set) == string::npos; }; size_t L = s.size();
    auto put = [&](long c) { if (c < n) out.insert(c); };
    if (L >= 3 && (s[L - 1] == 'b' || s[L - 1] == 'B') && all(s.substr(0, L - 1), "01")) { for (size_t i = 0; i + 1 < L; ++i) if (s[i] == '1') put(i); return true; }
    if (L >= 3 && s[0] == '0' && (s[1] == 'b' || s[1] == 'B') && all(s.substr(2), "01")) { for (size_t i = 2; i < L; ++i) if (s[i] == '1') put(L - 1 - i); return true; }
    if (L >= 3 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && all(s.substr(2), "0123456789abcdefABCDEF")) { for (size_t i = 2; i < L; ++i) { int v = strtol(string(1, s[i]).c_str(), 0, 16); for (int k = 0; k < 4; ++k) if (v >> k & 1) put(4 * (L - 1 - i) + k); } return true; }
    if (L >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') && s.find(',') != string::npos) return false;
    if (all(s, "0123456789,-")) { size_t i = 0; for (;;) { size_t d = i; while (d < L && isdigit(s[d])) ++d; if (d == i) return false; long a = atol(s.substr(i, d - i).c_str()), b = a; if (d < L && s[d] == '-') { i = d + 1; d = i; while (d < L && isdigit(s[d])) ++d; if (d == i) return false; b = atol(s.substr(i, d - i).c_str()); if (b < a) return false; }
            for (long c = a; c <= b; ++c) put(c); if (d == L) return true; if (s[d] != ',') return false; i = d + 1; } }
    return true;        /* not a mask: empty */
}
static void job_strings(int part, int parts) {
    int n = 13; flat(n); const string al = "0129-,xbF"; int top = mc::level >= 2 ? 6 : 5; long k = 0;
    for (int L = 1; L <= top; ++L) { vector<int> ix(L, 0); for (;;) {
        if (k++ % parts == part) { string s; for (int i : ix) s += al[i];
            if (mc::begin_case("string " + s)) { Set e; bool spec = ref(s, n, e); quiet([&] { Set g = parse(s); for (int c : g) if (c >= n) mc::bad("range", "\"%s\" yields CPU %d in a node of %d", s.c_str(), c, n); if (spec && g != e) mc::bad("parse", "\"%s\" is read as %s, expected %s", s.c_str(), show(g).c_str(), show(e).c_str()); }); mc::eval(spec); mc::end_case(); } }
        int i = L - 1; while (i >= 0 && ++ix[i] == (int)al.size()) ix[i--] = 0; if (i < 0) break; } }
    mc::note_bound(mc::fmt("every string of up to %d characters of \"%s\"", top, al.c_str()));
}
/* ---- set operations */
static void setops(int n, const Set &a, const Set &b) {
    cpu_set_t x = cs(a), y = cs(b), r; auto chk = [&](const char *f, const Set &e) { Set g = st(r, n); if (g != e) mc::bad(f, "%s(%s, %s) = %s", f, show(a).c_str(), show(b).c_str(), show(g).c_str()); };
    auto chb = [&](const char *f, long g, long e) { if (g != e) mc::bad(f, "%s(%s, %s) = %ld, expected %ld", f, show(a).c_str(), show(b).c_str(), g, e); };
    mu_and(&r, &x, &y); chk("and", inter(a, b)); mu_or(&r, &x, &y); chk("or", uni(a, b)); mu_xor(&r, &x, &y); chk("xor", uni(diff(a, b), diff(b, a))); mu_substract(&r, &x, &y); chk("substract", diff(a, b));
    r = x; mu_and(&r, &r, &y); chk("and in place", inter(a, b)); r = x; mu_substract(&r, &r, &y); chk("substract in place", diff(a, b)); r = y; mu_substract(&r, &x, &r); chk("substract in place 2", diff(a, b)); r = x; mu_or(&r, &r, &y); chk("or in place", uni(a, b));
    chb("equal", mu_equal(&x, &y), a == b); chb("is_subset", mu_is_subset(&x, &y), sub(a, b)); chb("is_superset", mu_is_superset(&x, &y), sub(b, a)); chb("is_proper_subset", mu_is_proper_subset(&x, &y), sub(a, b) && a != b);
    chb("is_proper_superset", mu_is_proper_superset(&x, &y), sub(b, a) && a != b); chb("intersects", mu_intersects(&x, &y), !inter(a, b).empty());
    if (memcmp(&x, (r = cs(a), &r), sizeof r) || memcmp(&y, (r = cs(b), &r), sizeof r)) mc::bad("operand", "an operand is modified");
}
static void scan(int n, const Set &a, const vector<int> &prevs) {
    cpu_set_t x = cs(a), r; auto chb = [&](const char *f, int p, long g, long e) { if (g != e) mc::bad(f, "%s(%s, %d) = %ld, expected %ld", f, show(a).c_str(), p, g, e); };
    chb("count", 0, mu_count(&x), a.size()); chb("first", 0, mu_get_first_cpu(&x), a.empty() ? -1 : *a.begin()); chb("last", 0, mu_get_last_cpu(&x), a.empty() ? -1 : *a.rbegin()); chb("single", 0, mu_get_single_cpu(&x), a.size() == 1 ? *a.begin() : -1);
    for (int p : prevs) { auto it = a.upper_bound(p); chb("next", p, mu_get_next_cpu(&x, p), p < -1 ? -1 : it == a.end() ? -1 : *it); int u = p + 1; while (a.count(u)) ++u; if (p >= -1 && u < n) chb("next_unset", p, mu_get_next_unset(&x, p), u); }
    memset(&r, 0xff, sizeof r); mu_zero(&r); chb("zero", 0, st(r, n).size(), 0); memset(&r, 0xff, sizeof r); mu_get_system_mask(&r); chb("system mask", 0, st(r).size(), n); chb("system size", 0, mu_get_system_size(), n);
}
static void job_setops() {
    int top = mc::level >= 2 ? 7 : 6;
    for (int n = 1; n <= top; ++n) { flat(n); vector<int> pv; for (int i = -2; i < n; ++i) pv.push_back(i); for (unsigned m = 0; m < 1u << n; ++m) { if (mc::begin_case(mc::fmt("scan %d %x", n, m))) { quiet([&] { scan(n, bits(m), pv); }); mc::end_case(); }
        for (unsigned k = 0; k < 1u << n; ++k) if (mc::begin_case(mc::fmt("sets %d %x %x", n, m, k))) { quiet([&] { setops(n, bits(m), bits(k)); }); mc::eval(); mc::end_case(); } } }
    for (int n : {63, 64, 65, 128, 130, 1024}) { flat(n); auto v = structured(n); vector<int> pv; for (int p : {-1, 0, 1, 31, 62, 63, 64, 65, 126, 127, 128, 129, n - 2, n - 1}) if (p < n) pv.push_back(p); size_t stp = v.size() / 25 + 1;
        for (size_t i = 0; i < v.size(); ++i) { if (mc::begin_case(mc::fmt("scan %d #%zu", n, i))) { quiet([&] { scan(n, v[i], pv); }); mc::end_case(); } if (i % stp == 0) for (size_t j = 0; j < v.size(); j += stp) if (mc::begin_case(mc::fmt("sets %d #%zu #%zu", n, i, j))) { quiet([&] { setops(n, v[i], v[j]); }); mc::eval(); mc::end_case(); } } }
    mc::note_bound(mc::fmt("every pair of sets on nodes of 1 to %d CPUs; pairs of structured sets on nodes of 63 to 1024", top));
}
/* ---- topology */
struct Topo { const char *name; int n; vector<Set> cores, nodes; };
static vector<Topo> topos() {
    vector<Topo> t = {{"1", 1, {{0}}, {{0}}}, {"2c", 2, {{0}, {1}}, {{0, 1}}}, {"1x2", 2, {{0, 1}}, {{0, 1}}}, {"4c2n", 4, {{0}, {1}, {2}, {3}}, {{0, 1}, {2, 3}}}, {"2x2", 4, {{0, 1}, {2, 3}}, {{0, 1}, {2, 3}}}, {"2x2i", 4, {{0, 2}, {1, 3}}, {{0, 1, 2, 3}}},
      {"3x2i", 6, {{0, 3}, {1, 4}, {2, 5}}, {{0, 3}, {1, 4, 2, 5}}}, {"3x2", 6, {{0, 1}, {2, 3}, {4, 5}}, {{0, 1, 2, 3}, {4, 5}}}, {"6c3n", 6, {{0}, {1}, {2}, {3}, {4}, {5}}, {{0, 1}, {2, 3}, {4, 5}}}, {"2x3", 6, {{0, 1, 2}, {3, 4, 5}}, {{0, 1, 2}, {3, 4, 5}}}, {"uneven", 5, {{0, 1}, {2}, {3, 4}}, {{0, 1, 2}, {3, 4}}},
      {"7c", 7, {{0}, {1}, {2}, {3}, {4}, {5}, {6}}, {{0, 1, 2, 3, 4, 5, 6}}}};
    if (mc::level >= 2) { t.push_back({"4x2i", 8, {{0, 4}, {1, 5}, {2, 6}, {3, 7}}, {{0, 1, 4, 5}, {2, 3, 6, 7}}}); t.push_back({"2x4", 8, {{0, 1, 2, 3}, {4, 5, 6, 7}}, {{0, 1, 2, 3}, {4, 5, 6, 7}}}); }
    return t;
}
static void topo_eval(const Topo &t, const Set &m) {
    cpu_set_t x = cs(m), r; auto core = [&](int c) { for (size_t i = 0; i < t.cores.size(); ++i) if (t.cores[i].count(c)) return (int)i; return -1; };
    auto chk = [&](const char *f, const Set &e) { Set g = st(r); if (g != e) mc::bad(f, "%s: %s(%s) = %s, expected %s", t.name, f, show(m).c_str(), show(g).c_str(), show(e).c_str()); };
    auto chb = [&](const char *f, int p, long g, long e) { if (g != e) mc::bad(f, "%s: %s(%s, %d) = %ld, expected %ld", t.name, f, show(m).c_str(), p, g, e); };
    Set ni, ns, ci, csb; int full = 0, last = -1;
    for (auto &n : t.nodes) { if (!inter(n, m).empty()) ni = uni(ni, n); if (sub(n, m)) ns = uni(ns, n); }
    for (size_t i = 0; i < t.cores.size(); ++i) { auto &n = t.cores[i]; if (!inter(n, m).empty()) ci = uni(ci, n); if (sub(n, m)) { csb = uni(csb, n); ++full; last = i; } }
    memset(&r, 0xff, sizeof r); mu_get_nodes_intersecting_with_cpuset(&r, &x); chk("nodes_intersecting", ni); memset(&r, 0xff, sizeof r); mu_get_nodes_subset_of_cpuset(&r, &x); chk("nodes_subset", ns);
    memset(&r, 0xff, sizeof r); mu_get_cores_intersecting_with_cpuset(&r, &x); chk("cores_intersecting", ci); memset(&r, 0xff, sizeof r); mu_get_cores_subset_of_cpuset(&r, &x); chk("cores_subset", csb);
    chb("count_cores", 0, mu_count_cores(&x), full); chb("last_coreid", 0, mu_get_last_coreid(&x), last); r = x; chb("take_last_coreid", 0, mu_take_last_coreid(&r), last); chk("take_last_coreid", last < 0 ? m : diff(m, t.cores[last]));
    for (size_t i = 0; i < t.cores.size(); ++i) { r = x; mu_set_core(&r, i); chk("set_core", uni(m, t.cores[i])); r = x; mu_unset_core(&r, i); chk("unset_core", diff(m, t.cores[i])); }
    for (int p = -2; p < t.n; ++p) { int e = -1; if (p >= -1) for (int c : m) if (c > p && core(c) > (p < 0 ? -1 : core(p))) { e = c; break; } chb("cpu_next_core", p, mu_get_cpu_next_core(&x, p), e); }
}
/* orders */
static void orders(const Topo &t, const Set &l0, const Set &l1) {
    auto core = [&](int c) { for (size_t i = 0; i < t.cores.size(); ++i) if (t.cores[i].count(c)) return (int)i; return -1; };
    int first = l0.empty() ? -1 : core(*l0.begin()); Set all; for (int i = 0; i < t.n; ++i) all.insert(i);
    auto sorted = [&](Set s, bool wrap) { vector<int> v(s.begin(), s.end()); std::sort(v.begin(), v.end(), [&](int a, int b) { bool wa = wrap && core(a) < first, wb = wrap && core(b) < first; if (wa != wb) return wb; return core(a) != core(b) ? core(a) < core(b) : a < b; }); return v; };
    auto cat = [](vector<int> a, const vector<int> &b) { a.insert(a.end(), b.begin(), b.end()); return a; };
    auto str = [](const vector<int> &v) { string s; for (int c : v) s += std::to_string(c) + " "; return s; };
    vector<int> in; for (int i = 0; i < t.n; ++i) in.push_back(i);
    for (int perm = 0; perm < 4; ++perm) {
        vector<int> v = in; if (perm == 1) std::reverse(v.begin(), v.end()); if (perm == 2) std::rotate(v.begin(), v.begin() + t.n / 2, v.end()); if (perm == 3) for (size_t i = 0; i + 1 < v.size(); i += 2) std::swap(v[i], v[i + 1]);
        if (l1 == l0) { vector<int> w = v; cpu_set_t x = cs(l0); qsort_r(w.data(), w.size(), sizeof(int), mu_cmp_cpuids_by_ownership, &x); vector<int> e = cat(sorted(l0, false), sorted(diff(all, l0), true)); if (w != e) mc::bad("ownership", "%s: order of CPUs for the owner of %s: %s, expected %s", t.name, show(l0).c_str(), str(w).c_str(), str(e).c_str()); }
        if (!l0.empty()) { vector<int> w = v; cpu_set_t a[4] = {cs(l0), cs(l1), cs(all), cs({})}; if (l1 == all) a[2] = cs({}); qsort_r(w.data(), w.size(), sizeof(int), mu_cmp_cpuids_by_affinity, a); vector<int> e = cat(cat(sorted(l0, false), sorted(diff(l1, l0), true)), sorted(diff(all, l1), false)); if (w != e) mc::bad("affinity", "%s: order of CPUs with levels %s %s: %s, expected %s", t.name, show(l0).c_str(), show(l1).c_str(), str(w).c_str(), str(e).c_str()); }
    }
}
static void job_topo() {
    for (auto &t : topos()) {
        topo(t.n, t.cores, t.nodes); int smt = t.cores[0].size();
        if (mc::begin_case(string("topology ") + t.name)) { quiet([&] {
            if (mu_get_num_cores() != (int)t.cores.size() || mu_get_system_size() != t.n || mu_system_has_smt() != (smt > 1) || mu_get_system_hwthreads_per_core() != smt) mc::bad("system", "%s: %d cores, %d CPUs", t.name, mu_get_num_cores(), mu_get_system_size());
            for (int c = -2; c < t.n + 3; ++c) { int e = -1; for (size_t i = 0; i < t.cores.size(); ++i) if (t.cores[i].count(c)) e = i; if (mu_get_core_id(c) != e) mc::bad("core_id", "%s: core of CPU %d is %d", t.name, c, mu_get_core_id(c)); const mu_cpuset_t *m = mu_get_core_mask(c); if (!m != (e < 0)) mc::bad("core_mask", "%s: mask of the core of CPU %d", t.name, c);
               if (m && e >= 0) { Set g; for (int k = 0; k < t.n; ++k) if (CPU_ISSET(k, m->set)) g.insert(k); auto &x = t.cores[e]; if (g != x || m->count != x.size() || m->first_cpuid != *x.begin() || m->last_cpuid != *x.rbegin()) mc::bad("core_mask", "%s: mask of the core of CPU %d", t.name, c); } }
            for (int k = -2; k < (int)t.cores.size() + 2; ++k) if (!mu_get_core_mask_by_coreid(k) != (k < 0 || k >= (int)t.cores.size())) mc::bad("core_mask_by_coreid", "%s: core %d", t.name, k); }); mc::end_case(); }
        for (unsigned m = 0; m < 1u << t.n; ++m) if (mc::begin_case(mc::fmt("topology %s mask %x", t.name, m))) { quiet([&] { topo_eval(t, bits(m)); }); mc::eval(); mc::end_case(); }
        for (unsigned a = 0; a < 1u << t.n; ++a) for (unsigned b = a; ; b = (b + 1) | a) { if (b >= 1u << t.n) break; if (mc::begin_case(mc::fmt("order %s %x %x", t.name, a, b))) { quiet([&] { orders(t, bits(a), bits(b)); }); mc::eval(); mc::end_case(); } }
    }
    mc::note_bound("every set (and chain of sets) of CPUs on nodes of up to 7 CPUs with several core and NUMA layouts");
}
/* ---- discovering the topology from the system files */
static void job_sys(int part, int parts) {
    struct L { const char *name; vector<Set> cores, nodes; Set offline; };
    vector<L> ls = {{"4c", {{0}, {1}, {2}, {3}}, {{0, 1, 2, 3}}}, {"2x2", {{0, 1}, {2, 3}}, {{0, 1}, {2, 3}}}, {"2x2i", {{0, 2}, {1, 3}}, {{0, 2}, {1, 3}}}, {"3x2i", {{0, 3}, {1, 4}, {2, 5}}, {{0, 1, 3, 4}, {2, 5}}}, {"1x4", {{0, 1, 2, 3}}, {{0, 1, 2, 3}}}, {"uneven", {{0, 1}, {2}, {3, 4}}, {{0, 1, 2, 3, 4}}}, {"smt-off", {{0}, {1}}, {{0, 1}}, {2, 3}}, {"off-mid", {{0}, {2}, {3}}, {{0, 2, 3}}, {1}}, {"1", {{0}}, {{0}}}};
    long k = 0;
    for (auto &l : ls) for (int label = 0; label < 6; ++label) for (int nlab = 0; nlab < 4; ++nlab) {
        Set all = l.offline; for (auto &c : l.cores) all = uni(all, c); int n = *all.rbegin() + 1; vector<int> ord(all.begin(), all.end()); long np = 0;
        do {
            if (++np > (mc::level >= 2 ? 720 : 24)) break;
            if (k++ % parts != part) continue;
            static const char *LN[] = {"sequential", "sparse", "repeated per socket", "absent", "out of range", "reversed"};
            if (!mc::begin_case(mc::fmt("%s core ids %s, nodes %d, listing %ld", l.name, LN[label], nlab, np))) continue;
            nat::sys_files.clear(); nat::sys_dirs.clear(); string C = "/sys/devices/system/cpu", D = "/sys/devices/system/node"; nat::sys_files[C + "/present"] = list(all) + "\n";
            auto &dir = nat::sys_dirs[C]; dir = {".", "cpufreq", ".."}; for (int c : ord) dir.push_back(mc::fmt("cpu%d", c)); dir.push_back("cpuidle");
            for (size_t i = 0; i < l.cores.size(); ++i) for (int c : l.cores[i]) { string p = C + mc::fmt("/cpu%d/topology/", c); nat::sys_files[p + "thread_siblings_list"] = list(l.cores[i]) + "\n";
                int id = label == 0 ? i : label == 1 ? i * 2 : label == 2 ? i % 2 : label == 4 ? 5000 + i : l.cores.size() - 1 - i; if (label != 3) nat::sys_files[p + "core_id"] = std::to_string(id) + "\n"; }
            vector<Set> nodes = l.nodes; if (nlab != 3) { auto &nd = nat::sys_dirs[D]; vector<std::pair<int, Set>> v; int id = 0; for (auto &s : nodes) { v.push_back({id++, s}); if (nlab == 1) v.push_back({id++, {}}); } if (nlab == 2) std::reverse(v.begin(), v.end()); nd = {"power"}; for (auto &x : v) { nd.push_back(mc::fmt("node%d", x.first)); nat::sys_files[D + mc::fmt("/node%d/cpulist", x.first)] = list(x.second) + "\n"; } }
            mu_finalize();
            quiet([&] { nat::fake_sys = true; mu_testing_init_nohwloc(); nat::fake_sys = false;
                if (mu_get_system_size() != n) mc::bad("size", "system size %d, expected %d", mu_get_system_size(), n);
                if (mu_get_num_cores() != (int)l.cores.size()) { mc::bad("cores", "%d cores found, there are %zu", mu_get_num_cores(), l.cores.size()); return; }
                Set ids; cpu_set_t r; for (auto &co : l.cores) { int id = mu_get_core_id(*co.begin()); if (id < 0 || id >= (int)l.cores.size() || !ids.insert(id).second) mc::bad("core_id", "core id %d of CPU %d", id, *co.begin());
                    for (int c : co) { const mu_cpuset_t *m = mu_get_core_mask(c); Set g; if (m) for (int q = 0; q < n; ++q) if (CPU_ISSET(q, m->set)) g.insert(q); if (g != co || mu_get_core_id(c) != id) mc::bad("siblings", "the core of CPU %d has CPUs %s and id %d, expected %s and %d", c, show(g).c_str(), mu_get_core_id(c), show(co).c_str(), id); } }
                Set on; for (auto &c : l.cores) on = uni(on, c);
                for (unsigned m = 1; m < 1u << n; ++m) { Set s = inter(bits(m), on), ci, ni, ns; if (s.empty()) continue; int full = 0; for (auto &c : l.cores) { if (!inter(c, s).empty()) ci = uni(ci, c); if (sub(c, s)) ++full; } cpu_set_t x = cs(s); mu_get_cores_intersecting_with_cpuset(&r, &x); if (st(r) != ci || mu_count_cores(&x) != full) { mc::bad("cores", "cores of %s: %s, %d complete", show(s).c_str(), show(st(r)).c_str(), mu_count_cores(&x)); return; }
                    if (nlab != 3) { for (auto &c : nodes) { if (!inter(c, s).empty()) ni = uni(ni, c); if (sub(c, s)) ns = uni(ns, c); } mu_get_nodes_intersecting_with_cpuset(&r, &x); if (st(r) != ni) { mc::bad("nodes", "NUMA nodes of %s: %s", show(s).c_str(), show(st(r)).c_str()); return; } mu_get_nodes_subset_of_cpuset(&r, &x); if (st(r) != ns) { mc::bad("nodes", "NUMA nodes inside %s: %s", show(s).c_str(), show(st(r)).c_str()); return; } } }
            });
            nat::fake_sys = false; mc::eval(); mc::end_case();
        } while (std::next_permutation(ord.begin(), ord.end()));
    }
    mc::note_bound("node descriptions: layouts x numbering of cores x NUMA nodes (with memory-only ones) x order of directory listing");
}
void mc_register(void) {
    mc::job("forms.small", job_forms_small, 5); mc::job("forms.64", [] { job_forms_big({60, 63, 64, 65}); }, 6); mc::job("forms.128", [] { job_forms_big({66, 127, 128, 129, 130}); }, 6); mc::job("forms.1024", [] { job_forms_big({255, 1022, 1023, 1024}); }, 6);
    for (int p = 0; p < 3; ++p) mc::job(mc::fmt("strings.%d", p), [p] { job_strings(p, 3); }, 7);
    mc::job("setops", job_setops, 4); mc::job("topo", job_topo, 5); for (int p = 0; p < 2; ++p) mc::job(mc::fmt("sys.%d", p), [p] { job_sys(p, 2); }, 4);
}
