/* An MPI library for virtual processes: communicators, derived datatypes (only the described bytes travel) and the collectives
 * DLB needs.  Collective calls block until every member has arrived; wrong matching is a violation. */
#ifndef FAKEMPI_H
#define FAKEMPI_H
#include "hn.h"
#include <pthread.h>
extern "C" {
int vn_pthread_barrier_init(pthread_barrier_t *, const pthread_barrierattr_t *, unsigned); int vn_pthread_barrier_wait(pthread_barrier_t *);
char ompi_mpi_comm_world[512], ompi_mpi_info_null[512], ompi_mpi_int[512], ompi_mpi_char[512], ompi_mpi_float[512], ompi_mpi_double[512], ompi_mpi_int64_t[512], ompi_mpi_c_bool[512], ompi_mpi_cxx_bool[512], ompi_mpi_long[512], ompi_mpi_byte[512],
    ompi_mpi_op_max[64], ompi_mpi_op_min[64], ompi_mpi_op_sum[64], ompi_mpi_comm_self[512], ompi_mpi_comm_null[512], ompi_request_null[512], ompi_message_null[512], ompi_mpi_unsigned_long[512], ompi_mpi_unsigned[512];
}
namespace fm {
enum { MAXR = 6, MAXC = 64, MAXT = 4096 };
struct Comm { int n, m[MAXR]; int seq[MAXR]; };
struct Type { std::vector<std::pair<long, int>> map; long ext; bool live, committed; };   /* displacement, code = size | kind << 8 */
struct Op { void (*fn)(void *, void *, int *, void *); bool live; };
struct Coll { int kind, root, arrived, n; long a[MAXR][2]; std::vector<long> sig[MAXR]; std::vector<unsigned char> data[MAXR]; std::vector<unsigned char> res[MAXR]; Comm *out[MAXR]; void *op; Type *ty; int count; pthread_barrier_t bar; };
static Comm comms[MAXC]; static int ncomms; static Type types[MAXT]; static int ntypes; static Op ops[256]; static int nops; static int nranks, node_of[MAXR]; static int fold;
static std::map<std::pair<Comm *, int>, Coll> colls; static long ncoll; static void (*in_call)(const char *);   /* the application's own calls */
static void reset(int n, const int *nodes) { ncomms = ntypes = nops = 0; colls.clear(); ncoll = 0; nranks = n; for (int i = 0; i < n; ++i) node_of[i] = nodes[i]; memset(comms, 0, sizeof comms); comms[0].n = n; for (int i = 0; i < n; ++i) comms[0].m[i] = i; ncomms = 1; for (auto &t : types) { t.map.clear(); t.live = false; } }
static int me() { return G.cur_proc; }
static Comm *comm(void *c) { if (c == ompi_mpi_comm_world) return &comms[0]; Comm *k = (Comm *)c; if (k < comms + 1 || k >= comms + ncomms) { mc::bad("mpi-use", "rank %d uses an invalid communicator", me()); vn_raise(VN_ABORT, "invalid communicator"); } return k; }
static int rank_in(Comm *c, int r) { for (int i = 0; i < c->n; ++i) if (c->m[i] == r) return i; mc::bad("mpi-use", "rank %d uses a communicator it is not in", r); vn_raise(VN_ABORT, "not a member"); return -1; }
static Type *type(void *t) {
    static Type basic[16]; static void *addr[16] = {ompi_mpi_int, ompi_mpi_char, ompi_mpi_float, ompi_mpi_double, ompi_mpi_int64_t, ompi_mpi_c_bool, ompi_mpi_cxx_bool, ompi_mpi_long, ompi_mpi_byte, ompi_mpi_unsigned, ompi_mpi_unsigned_long}; static int size[16] = {4, 1, 4, 8, 8, 1, 1, 8, 1, 4, 8}, kind[16] = {0, 1, 2, 2, 0, 3, 3, 0, 4, 0, 0};
    for (int i = 0; i < 11; ++i) if (t == addr[i]) { basic[i].map = {{0, size[i] | kind[i] << 8}}; basic[i].ext = size[i]; basic[i].committed = basic[i].live = true; return &basic[i]; }
    Type *k = (Type *)t; if (k < types || k >= types + ntypes || !k->live) { mc::bad("mpi-use", "rank %d uses an invalid datatype", me()); vn_raise(VN_ABORT, "invalid datatype"); } return k;
}
static Type *tcomm(void *t) { Type *k = type(t); if (!k->committed) { mc::bad("mpi-use", "rank %d communicates with a datatype that is not committed", me()); vn_raise(VN_ABORT, "type not committed"); } return k; }
static void pack(const void *buf, int count, Type *t, std::vector<unsigned char> &d, std::vector<long> &sig) { d.clear(); sig.clear(); for (int i = 0; i < count; ++i) for (auto &e : t->map) { const unsigned char *p = (const unsigned char *)buf + i * t->ext + e.first; d.insert(d.end(), p, p + (e.second & 255)); sig.push_back(e.second); } }
static void unpack(void *buf, int count, Type *t, const unsigned char *d) { for (int i = 0; i < count; ++i) for (auto &e : t->map) { memcpy((unsigned char *)buf + i * t->ext + e.first, d, e.second & 255); d += e.second & 255; } }
static size_t nbytes(int count, Type *t) { size_t n = 0; for (auto &e : t->map) n += e.second & 255; return n * count; }
static bool sigeq(const std::vector<long> &s, size_t from, int count, Type *t) { size_t k = from; for (int i = 0; i < count; ++i) for (auto &e : t->map) { if (k >= s.size() || s[k] != e.second) return false; ++k; } return true; }
enum { DUP = 1, SPLIT, GATHER, GATHERV, ALLGATHER, ALLGATHERV, REDUCE, ALLREDUCE, BCAST, BARRIER, SCATTER };
static const char *KN[] = {"", "Comm_dup", "Comm_split", "Gather", "Gatherv", "Allgather", "Allgatherv", "Reduce", "Allreduce", "Bcast", "Barrier", "Scatter"};
static Coll &enter(Comm *c, int kind, int root) {
    int r = rank_in(c, me()); Coll &k = colls[{c, c->seq[r]++}]; ++ncoll;
    if (!k.arrived) { k.kind = kind; k.root = root; k.n = c->n; k.count = -1; vn_pthread_barrier_init(&k.bar, nullptr, c->n); }
    if (k.kind != kind || k.root != root) { mc::bad("mpi-mismatch", "rank %d calls %s (root %d) when other rank of the communicator calls %s (root %d)", me(), KN[kind], root, KN[k.kind], k.root); vn_raise(VN_ABORT, "mismatched collectives"); }
    ++k.arrived; return k;
}
static void wait(Coll &k) { vn_pthread_barrier_wait(&k.bar); }
static void die(const char *what) { mc::bad("mpi-mismatch", "rank %d: %s", me(), what); vn_raise(VN_ABORT, what); }
static Comm *newcomm() { if (ncomms >= MAXC) vn_raise(VN_CAPACITY, "communicators"); return &comms[ncomms++]; }
static void split(Comm *c, int color, int key, void **out) {
    Coll &k = enter(c, SPLIT, 0); int r = rank_in(c, me()); k.a[r][0] = color; k.a[r][1] = key;
    if (k.arrived == k.n) { for (auto &o : k.out) o = nullptr; for (int i = 0; i < k.n; ++i) if (!k.out[i] && k.a[i][0] >= 0) { Comm *n = newcomm(); std::vector<std::pair<long, int>> v; for (int j = 0; j < k.n; ++j) if (k.a[j][0] == k.a[i][0]) v.push_back({k.a[j][1], j}); std::stable_sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; }); for (auto &x : v) { n->m[n->n++] = c->m[x.second]; k.out[x.second] = n; } } }
    wait(k); *out = k.out[r];
}
static void reduce(Comm *c, int kind, int root, const void *s, void *d, int count, void *dt, void *op) {
    Type *t = tcomm(dt); Coll &k = enter(c, kind, root); int r = rank_in(c, me()); pack(s, count, t, k.data[r], k.sig[r]); if (k.count >= 0 && (k.count != count || k.sig[r].size() != nbytes(count, t) * 0 + k.sig[r].size())) die("different counts in a reduction"); k.count = count;
    if (k.arrived == k.n) {
        for (int i = 0; i < k.n; ++i) if (k.sig[i] != k.sig[r]) die("different datatypes in a reduction");
        bool user = (Op *)op >= ops && (Op *)op < ops + nops; if (user && !((Op *)op)->live) die("freed operation");
        std::vector<std::vector<unsigned char>> b(k.n); for (int i = 0; i < k.n; ++i) { b[i].assign(count * t->ext + 64, 0xa5); unpack(b[i].data(), count, t, k.data[i].data()); }
        auto f = [&](int in, int inout) { int n = count; if (user) { ((Op *)op)->fn(b[in].data(), b[inout].data(), &n, &dt); return; } for (int i = 0; i < count; ++i) { auto &e = t->map[0]; void *x = b[in].data() + i * t->ext, *y = b[inout].data() + i * t->ext; auto g = [&](auto *p, auto *q) { if ((char *)op == ompi_mpi_op_sum) *q += *p; else if ((char *)op == ompi_mpi_op_max) *q = std::max(*p, *q); else *q = std::min(*p, *q); };
            if (t->map.size() != 1) die("predefined operation on a derived type"); if (e.second == 4) g((int *)x, (int *)y); else if (e.second == 8) g((long *)x, (long *)y); else if (e.second == (4 | 2 << 8)) g((float *)x, (float *)y); else if (e.second == (8 | 2 << 8)) g((double *)x, (double *)y); else die("predefined operation on this type"); } };
        /* any order and association is possible: the operation is declared commutative */
        int res; if (fold == 0) { res = k.n - 1; for (int i = k.n - 2; i >= 0; --i) f(i, res); } else if (fold == 1) { res = 0; for (int i = 1; i < k.n; ++i) f(i, 0); } else { res = 0; for (int s = 1; s < k.n; s *= 2) for (int i = 0; i + s < k.n; i += 2 * s) f(i + s, i); }
        std::vector<long> sg; pack(b[res].data(), count, t, k.res[0], sg);
    }
    wait(k); if (kind == ALLREDUCE || r == root) unpack(d, count, t, k.res[0].data());
}
static void gather(Comm *c, int kind, int root, const void *s, int sc, void *st, void *d, const int *rcs, const int *displs, int rc, void *rt) {
    Type *ts = tcomm(st); Coll &k = enter(c, kind, root); int r = rank_in(c, me()); pack(s, sc, ts, k.data[r], k.sig[r]); wait(k);
    bool all = kind == ALLGATHER || kind == ALLGATHERV; if (!all && r != root) return; Type *tr = tcomm(rt);
    for (int i = 0; i < k.n; ++i) { int cnt = rcs ? rcs[i] : rc; size_t per = tr->map.size() * (size_t)cnt; if (k.sig[i].size() != per || !sigeq(k.sig[i], 0, cnt, tr)) { mc::bad("mpi-mismatch", "%s: rank %d sends %zu elements, rank %d expects %zu (message truncated or incomplete)", KN[kind], c->m[i], k.sig[i].size(), me(), per); vn_raise(VN_ABORT, "MPI_ERR_TRUNCATE"); } unpack((char *)d + (displs ? (long)displs[i] : (long)i * rc) * tr->ext, cnt, tr, k.data[i].data()); }
}
}
extern "C" {
int PMPI_Get_library_version(char *v, int *n) { strcpy(v, "vnode"); *n = 5; return 0; }
int PMPI_Comm_rank(void *c, int *r) { *r = fm::rank_in(fm::comm(c), fm::me()); return 0; }
int PMPI_Comm_size(void *c, int *n) { fm::Comm *k = fm::comm(c); fm::rank_in(k, fm::me()); *n = k->n; return 0; }
int PMPI_Comm_dup(void *c, void **o) { fm::Comm *k = fm::comm(c); fm::Coll &x = fm::enter(k, fm::DUP, 0); int r = fm::rank_in(k, fm::me()); if (x.arrived == x.n) { fm::Comm *n = fm::newcomm(); n->n = k->n; memcpy(n->m, k->m, sizeof n->m); x.out[0] = n; } fm::wait(x); (void)r; *o = x.out[0]; return 0; }
int PMPI_Comm_split(void *c, int color, int key, void **o) { fm::split(fm::comm(c), color, key, o); return 0; }
int PMPI_Comm_split_type(void *c, int t, int key, void *, void **o) { if (t != 0) { fm::die("Comm_split_type"); } fm::split(fm::comm(c), fm::node_of[fm::me()], key, o); return 0; }
int PMPI_Comm_free(void **c) { *c = ompi_mpi_comm_null; return 0; }
int PMPI_Type_match_size(int cls, int size, void **t) { *t = cls == 1 ? (size == 8 ? (void *)ompi_mpi_int64_t : size == 4 ? (void *)ompi_mpi_int : (void *)ompi_mpi_char) : size == 8 ? (void *)ompi_mpi_double : (void *)ompi_mpi_float; return 0; }
static void *newtype() { if (fm::ntypes >= fm::MAXT) vn_raise(VN_CAPACITY, "datatypes"); fm::Type *t = &fm::types[fm::ntypes++]; t->map.clear(); t->live = true; t->committed = false; return t; }
int PMPI_Type_create_struct(int n, const int *len, const long *disp, void *const *ty, void **o) { fm::Type *t = (fm::Type *)newtype(); long ext = 0; for (int i = 0; i < n; ++i) { fm::Type *b = fm::type(ty[i]); for (int k = 0; k < len[i]; ++k) for (auto &e : b->map) { t->map.push_back({disp[i] + k * b->ext + e.first, e.second}); ext = std::max(ext, t->map.back().first + (e.second & 255)); } } t->ext = ext; *o = t; return 0; }
int PMPI_Type_create_resized(void *ty, long, long ext, void **o) { fm::Type *t = (fm::Type *)newtype(); t->map = fm::type(ty)->map; t->ext = ext; *o = t; return 0; }
int PMPI_Type_contiguous(int n, void *ty, void **o) { fm::Type *t = (fm::Type *)newtype(), *b = fm::type(ty); for (int k = 0; k < n; ++k) for (auto &e : b->map) t->map.push_back({k * b->ext + e.first, e.second}); t->ext = n * b->ext; *o = t; return 0; }
int PMPI_Type_commit(void **t) { fm::type(*t)->committed = true; return 0; }
int PMPI_Type_free(void **t) { fm::type(*t)->live = false; *t = nullptr; return 0; }
int PMPI_Op_create(void (*fn)(void *, void *, int *, void *), int, void **o) { if (fm::nops >= 256) vn_raise(VN_CAPACITY, "operations"); fm::ops[fm::nops] = {fn, true}; *o = &fm::ops[fm::nops++]; return 0; }
int PMPI_Op_free(void **o) { ((fm::Op *)*o)->live = false; *o = nullptr; return 0; }
int PMPI_Gather(const void *s, int sc, void *st, void *d, int rc, void *rt, int root, void *c) { fm::gather(fm::comm(c), fm::GATHER, root, s, sc, st, d, nullptr, nullptr, rc, rt); return 0; }
int PMPI_Gatherv(const void *s, int sc, void *st, void *d, const int *rc, const int *dp, void *rt, int root, void *c) { fm::gather(fm::comm(c), fm::GATHERV, root, s, sc, st, d, rc, dp, 0, rt); return 0; }
int PMPI_Allgather(const void *s, int sc, void *st, void *d, int rc, void *rt, void *c) { fm::gather(fm::comm(c), fm::ALLGATHER, 0, s, sc, st, d, nullptr, nullptr, rc, rt); return 0; }
int PMPI_Allgatherv(const void *s, int sc, void *st, void *d, const int *rc, const int *dp, void *rt, void *c) { fm::gather(fm::comm(c), fm::ALLGATHERV, 0, s, sc, st, d, rc, dp, 0, rt); return 0; }
int PMPI_Reduce(const void *s, void *d, int n, void *t, void *op, int root, void *c) { fm::reduce(fm::comm(c), fm::REDUCE, root, s, d, n, t, op); return 0; }
int PMPI_Allreduce(const void *s, void *d, int n, void *t, void *op, void *c) { fm::reduce(fm::comm(c), fm::ALLREDUCE, 0, s, d, n, t, op); return 0; }
int PMPI_Barrier(void *c) { if (fm::in_call) fm::in_call("MPI_Barrier"); fm::Coll &k = fm::enter(fm::comm(c), fm::BARRIER, 0); fm::wait(k); return 0; }
int PMPI_Bcast(void *b, int n, void *ty, int root, void *c) { fm::Comm *cm = fm::comm(c); fm::Type *t = fm::tcomm(ty); fm::Coll &k = fm::enter(cm, fm::BCAST, root); int r = fm::rank_in(cm, fm::me()); if (r == root) fm::pack(b, n, t, k.data[0], k.sig[0]); fm::wait(k); if (r != root) { if (k.sig[0].size() != t->map.size() * n || !fm::sigeq(k.sig[0], 0, n, t)) fm::die("Bcast with different datatypes"); fm::unpack(b, n, t, k.data[0].data()); } return 0; }
}
#endif
