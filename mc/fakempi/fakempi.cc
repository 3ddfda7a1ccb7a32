#include "mpi.h"
#include "fakempi.h"
#include "../mcfs.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <time.h>
#include <algorithm>
#include <memory>
#include <deque>
typedef std::string str;
int fmpi_sync; bool fmpi_wildcards; void (*fmpi_abort_hook)(int);
namespace {
struct Off { int m; Off() : m(mcfs_mode()) { if (m) mcfs_off(); } ~Off() { if (m) mcfs_on(m); } };
struct Coll { str sig; std::vector<bool> in; std::vector<str> data; std::vector<std::vector<int>> clk; std::vector<long> aux, aux2; int n = 0; std::map<int, int> newcomm; };
struct Comm { std::vector<int> mem; std::vector<size_t> seq; std::map<size_t, Coll> coll; std::vector<bool> freed; };
struct Msg { int src, tag, dst, comm; str data; std::vector<int> clk; bool taken = false; };
struct Req { int kind; int rank; bool done = false; std::shared_ptr<Msg> msg; void *buf; size_t cap; int src, tag, comm; MPI_Status st; bool sync; };
struct Type { size_t size; bool committed, freed; };
int N; std::map<int, Comm> comms; int nextcomm; std::vector<std::shared_ptr<Msg>> msgs; std::map<int, Req> reqs; int nextreq; std::map<int, Type> types; int nexttype; std::vector<str> logs; uint64_t ncoll;
const size_t tsize[] = {1, 1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 16, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 8, 1, 8, 16, 16, 8};
int me() { int r = sched_self(); if (r < 0) { fprintf(stderr, "MPI outside of a rank\n"); abort(); } return r; }
size_t tsz(MPI_Datatype t) { if (t >= MPI_CHAR && t < MPI_LAST_TYPE_) return tsize[t - MPI_CHAR]; auto i = types.find(t); if (i == types.end()) mc_fail("rank %d uses an invalid MPI datatype", me()); if (i->second.freed || !i->second.committed) mc_fail("rank %d uses %s MPI datatype", me(), i->second.freed ? "a freed" : "an uncommitted"); return i->second.size; }
Comm &cm(MPI_Comm c, int &rank) { auto i = comms.find(c == MPI_COMM_SELF ? MPI_COMM_SELF + 1 + me() : c); if (i == comms.end()) mc_fail("rank %d uses an invalid communicator", me()); Comm &m = i->second; auto p = std::find(m.mem.begin(), m.mem.end(), me()); if (p == m.mem.end()) mc_fail("rank %d uses a communicator it is no member of", me()); rank = p - m.mem.begin(); if (m.freed[rank]) mc_fail("rank %d uses a communicator it has freed", me()); return m; }
str bytes(const void *p, size_t n) { str s(n, 0); if (n) memcpy(&s[0], p, n); return s; }
// enter a collective operation; returns it once the ranks in 'need' (-1 all, -2 none, r that one) have entered too
Coll &enter(MPI_Comm c, const str &sig, const str &data, int need, int &rank, long aux = 0, long aux2 = 0) {
    Comm &m = cm(c, rank); size_t k = m.seq[rank]++; Coll &x = m.coll[k]; int n = m.mem.size(); ncoll++;
    logs[me()] += sig + ";"; mc_note("    %d: %s", me(), sig.c_str());
    if (x.n == 0) { x.sig = sig; x.in.resize(n); x.data.resize(n); x.clk.resize(n); x.aux.resize(n); x.aux2.resize(n); }
    if (x.sig != sig) { str o; for (int i = 0; i < n; i++) if (x.in[i]) o += " " + std::to_string(m.mem[i]); mc_fail("collective operations do not match: rank %d calls %s, rank%s %s", me(), sig.c_str(), o.c_str(), x.sig.c_str()); }
    x.in[rank] = true; x.data[rank] = data; x.aux[rank] = aux; x.aux2[rank] = aux2; x.n++; mc_hb_export(me(), x.clk[rank]); mc_transitions();
    if (fmpi_sync) need = -1;
    auto ready = [&x, need, n]() { return need == -1 ? x.n == n : need == -2 ? true : (bool)x.in[need]; };
    if (!ready()) sched_wait(sig, ready);
    for (int i = 0; i < n; i++) if (need == -1 || need == i) mc_hb_import(me(), x.clk[i]);
    return x;
}
template <class T> void red(T *a, const T *b, int n, MPI_Op op) { for (int i = 0; i < n; i++) switch (op) { case MPI_MAX: a[i] = std::max(a[i], b[i]); break; case MPI_MIN: a[i] = std::min(a[i], b[i]); break; case MPI_SUM: a[i] = a[i] + b[i]; break; case MPI_PROD: a[i] = a[i] * b[i]; break; case MPI_LAND: a[i] = a[i] && b[i]; break; case MPI_LOR: a[i] = a[i] || b[i]; break; case MPI_LXOR: a[i] = !a[i] != !b[i]; break; default: mc_fail("unsupported MPI reduction"); } }
template <class T> void redi(T *a, const T *b, int n, MPI_Op op) { for (int i = 0; i < n; i++) switch (op) { case MPI_BAND: a[i] &= b[i]; break; case MPI_BOR: a[i] |= b[i]; break; case MPI_BXOR: a[i] ^= b[i]; break; default: red(a + i, b + i, 1, op); } }
void reduce1(str &a, const str &b, int n, MPI_Datatype t, MPI_Op op) {
    void *p = &a[0]; const void *q = b.data(); if (!n) return;
    switch (t) {
#define T(X, Y) case X: redi((Y *)p, (const Y *)q, n, op); return;
    T(MPI_CHAR, signed char) T(MPI_SIGNED_CHAR, signed char) T(MPI_UNSIGNED_CHAR, unsigned char) T(MPI_BYTE, unsigned char) T(MPI_SHORT, short) T(MPI_UNSIGNED_SHORT, unsigned short) T(MPI_INT, int) T(MPI_UNSIGNED, unsigned) T(MPI_LONG, long) T(MPI_UNSIGNED_LONG, unsigned long) T(MPI_LONG_LONG, long) T(MPI_UNSIGNED_LONG_LONG, unsigned long) T(MPI_INT8_T, signed char) T(MPI_UINT8_T, unsigned char) T(MPI_INT16_T, short) T(MPI_UINT16_T, unsigned short) T(MPI_INT32_T, int) T(MPI_UINT32_T, unsigned) T(MPI_INT64_T, long) T(MPI_UINT64_T, unsigned long) T(MPI_AINT, long) T(MPI_OFFSET, long) T(MPI_COUNT, long) T(MPI_C_BOOL, unsigned char)
#undef T
    case MPI_FLOAT: red((float *)p, (const float *)q, n, op); return; case MPI_DOUBLE: red((double *)p, (const double *)q, n, op); return; case MPI_LONG_DOUBLE: red((long double *)p, (const long double *)q, n, op); return;
#define P(X, Y) case X: { struct S { Y v; int i; }; S *x = (S *)p; const S *y = (const S *)q; for (int i = 0; i < n; i++) { bool better = op == MPI_MAXLOC ? y[i].v > x[i].v : y[i].v < x[i].v; if (better || (y[i].v == x[i].v && y[i].i < x[i].i)) x[i] = y[i]; } return; }
    P(MPI_2INT, int) P(MPI_LONG_INT, long) P(MPI_DOUBLE_INT, double) P(MPI_FLOAT_INT, float)
    default: mc_fail("unsupported type in an MPI reduction");
    }
}
str rsig(const char *n, int cnt, MPI_Datatype t, MPI_Op op, int root = -1) { char b[100]; snprintf(b, sizeof b, "%s(%d of type %d, op %d%s%s)", n, cnt, t - MPI_CHAR, op - MPI_MAX, root < 0 ? "" : ", root ", root < 0 ? "" : std::to_string(root).c_str()); return b; }
str gsig(const char *n, int root = -1) { return str(n) + (root < 0 ? "()" : "(root " + std::to_string(root) + ")"); }
str reduce_all(Coll &x, int n, int cnt, MPI_Datatype t, MPI_Op op) { str s = x.data[0]; for (int i = 1; i < n; i++) reduce1(s, x.data[i], cnt, t, op); return s; }
void root_ok(int root, Comm &m) { if (root < 0 || root >= (int)m.mem.size()) mc_fail("rank %d: root %d of %zu ranks", me(), root, m.mem.size()); }
void put(void *p, const str &s) { if (s.size()) memcpy(p, s.data(), s.size()); }
}
void fmpi_start(int n) {
    N = n; comms.clear(); msgs.clear(); reqs.clear(); types.clear(); nextreq = 1; nexttype = 0x4d000000; nextcomm = 0x44000100; logs.assign(n, ""); ncoll = 0;
    Comm &w = comms[MPI_COMM_WORLD]; for (int i = 0; i < n; i++) { w.mem.push_back(i); w.seq.push_back(0); w.freed.push_back(false); Comm &s = comms[MPI_COMM_SELF + 1 + i]; s.mem = {i}; s.seq = {0}; s.freed = {false}; }
}
void fmpi_finish() {
    for (auto &c : comms) for (auto &k : c.second.coll) if (k.second.n != (int)c.second.mem.size()) { str o; for (size_t i = 0; i < c.second.mem.size(); i++) if (!k.second.in[i]) o += " " + std::to_string(c.second.mem[i]); mc_fail("rank%s never took part in %s, the others did", o.c_str(), k.second.sig.c_str()); }
    for (auto &m : msgs) if (!m->taken) mc_fail("a message from rank %d to rank %d (tag %d) was never received", m->src, m->dst, m->tag);
}
int fmpi_leaked(str *w) {
    int k = 0; for (auto &c : comms) if (c.first >= 0x44000100) for (size_t i = 0; i < c.second.mem.size(); i++) if (!c.second.freed[i]) { k++; if (w) *w += "a communicator of " + std::to_string(c.second.mem.size()) + " on rank " + std::to_string(c.second.mem[i]) + "; "; }
    for (auto &t : types) if (!t.second.freed) { k++; if (w) *w += "a datatype of " + std::to_string(t.second.size) + " bytes; "; }
    for (auto &r : reqs) if (!r.second.done) { k++; if (w) *w += "a request of rank " + std::to_string(r.second.rank) + "; "; } return k;
}
str fmpi_log(int r) { return logs[r]; }
uint64_t fmpi_ncoll() { return ncoll; }
static bool match(const Req &r, const Msg &m) { return !m.taken && m.comm == r.comm && m.dst == r.rank && (r.src == MPI_ANY_SOURCE || r.src == m.src) && (r.tag == MPI_ANY_TAG || r.tag == m.tag); }
static void take(Req &r, std::shared_ptr<Msg> m) { m->taken = true; r.msg = m; r.done = true; if (m->data.size() > r.cap) mc_fail("rank %d receives %zu bytes from rank %d into a buffer of %zu", r.rank, m->data.size(), m->src, r.cap); put(r.buf, m->data); r.st.MPI_SOURCE = m->src; r.st.MPI_TAG = m->tag; r.st.MPI_ERROR = 0; r.st.bytes_ = m->data.size(); }
// receives that are posted take their messages in the order of posting and of arrival
static void progress(int onlywild = -1) {
    for (auto &k : reqs) { Req &r = k.second; if (r.kind != 1 || r.done) continue; if (r.src == MPI_ANY_SOURCE && !fmpi_wildcards && k.first != onlywild) continue;
        std::vector<std::shared_ptr<Msg>> c; std::set<int> from; for (auto &m : msgs) if (match(r, *m) && from.insert(m->src).second) c.push_back(m);
        if (!c.empty()) take(r, c[r.src == MPI_ANY_SOURCE && !fmpi_wildcards ? mc_choose(c.size(), "source") : 0]); }
}
static int post(int kind, void *buf, size_t n, int peer, int tag, MPI_Comm comm, bool sync) {
    int rank; Comm &m = cm(comm, rank); int id = nextreq++; mc_transitions();
    if (kind == 0) { if (peer < 0 || peer >= (int)m.mem.size()) mc_fail("rank %d sends to rank %d", rank, peer);
        if (fmpi_wildcards) { int dst = peer; sched_point([dst, comm]() { McOp o; o.acc.push_back({0xabcd000ull + dst * 7919ull + comm, 0, 1, true}); return o; }); }
        auto g = std::make_shared<Msg>(); g->src = rank; g->dst = peer; g->tag = tag; g->comm = comm; g->data = bytes(buf, n); mc_hb_export(me(), g->clk); msgs.push_back(g); mc_note("    %d: send to %d, tag %d, %zu bytes", me(), peer, tag, n);
        reqs[id] = {0, rank, false, g, buf, n, peer, tag, comm, {}, sync || fmpi_sync}; progress(); return id; }
    reqs[id] = {1, rank, false, nullptr, buf, n, peer, tag, comm, {}, false}; progress(); return id;
}
static void waitreq(int id, MPI_Status *st) {
    Req &r = reqs[id]; int rank = r.rank; (void)rank;
    if (r.kind == 0) { if (r.sync) { auto ready = [&r]() { return r.msg->taken; }; if (!ready()) sched_wait("send to " + std::to_string(r.src) + " tag " + std::to_string(r.tag), ready); } }
    else { auto ready = [&r]() { if (r.done) return true; for (auto &m : msgs) if (match(r, *m)) return true; return false; };
        if (!ready()) sched_wait("receive from " + (r.src == MPI_ANY_SOURCE ? str("anyone") : std::to_string(r.src)) + " tag " + std::to_string(r.tag), ready);
        if (!r.done) progress(id); mc_hb_import(me(), r.msg->clk); if (st) *st = r.st; mc_note("    %d: received from %d, tag %d, %zu bytes", me(), r.st.MPI_SOURCE, r.st.MPI_TAG, r.st.bytes_);
        msgs.erase(std::remove(msgs.begin(), msgs.end(), r.msg), msgs.end()); }
    reqs.erase(id);
}
extern "C" {
int MPI_Init(int *, char ***) { return 0; }
int MPI_Init_thread(int *, char ***, int want, int *got) { if (got) *got = want; return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Finalized(int *f) { *f = 0; return 0; }
int MPI_Finalize(void) { Off o; int r; enter(MPI_COMM_WORLD, "Finalize", "", -1, r); return 0; }
int MPI_Abort(MPI_Comm, int st) { Off o; if (fmpi_abort_hook) fmpi_abort_hook(st); sched_kill_all(); }
double MPI_Wtime(void) { static double t; return t += 0.125; }
int MPI_Get_processor_name(char *b, int *l) { strcpy(b, "node"); *l = 4; return 0; }
int MPI_Error_string(int, char *b, int *l) { strcpy(b, "error"); *l = 5; return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { Off o; cm(c, *r); return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { Off o; int r; *n = cm(c, r).mem.size(); return 0; }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out) { Off o; int rank; int n0; { Comm &m = cm(c, rank); n0 = m.mem.size(); } Coll &x = enter(c, gsig("Comm_split"), "", -1, rank, color, key); Comm &m = cm(c, rank);
    if (color == MPI_UNDEFINED) { *out = MPI_COMM_NULL; return 0; }
    if (!x.newcomm.count(color)) { std::vector<std::pair<long, int>> v; for (int i = 0; i < n0; i++) if (x.aux[i] == color) v.push_back({x.aux2[i], i}); std::sort(v.begin(), v.end()); int id = nextcomm++; x.newcomm[color] = id; std::vector<int> mem; for (auto &p : v) mem.push_back(m.mem[p.second]); Comm &q = comms[id]; q.mem = mem; q.seq.assign(mem.size(), 0); q.freed.assign(mem.size(), false); }
    *out = x.newcomm[color]; return 0; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) { int r; MPI_Comm_rank(c, &r); return MPI_Comm_split(c, 0, r, out); }
int MPI_Comm_free(MPI_Comm *c) { Off o; int r; Comm &m = cm(*c, r); m.freed[r] = true; *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Barrier(MPI_Comm c) { Off o; int r; enter(c, gsig("Barrier"), "", -1, r); return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { Off o; int r; Comm &m = cm(c, r); root_ok(root, m); char s[100]; snprintf(s, sizeof s, "Bcast(%zu bytes, root %d)", n * tsz(t), root); Coll &x = enter(c, s, r == root ? bytes(b, n * tsz(t)) : "", r == root ? -2 : root, r); if (r != root) put(b, x.data[root]); return 0; }
int MPI_Reduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { Off o; int r; Comm &m = cm(c, r); root_ok(root, m); int k = m.mem.size(); if (r == root && rb == sb && n) mc_fail("rank %d: the two buffers of a reduction are the same", r); Coll &x = enter(c, rsig("Reduce", n, t, op, root), bytes(sb == MPI_IN_PLACE ? rb : sb, n * tsz(t)), r == root ? -1 : -2, r); if (r == root) put(rb, reduce_all(x, k, n, t, op)); return 0; }
int MPI_Allreduce(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Off o; int r; int k = cm(c, r).mem.size(); if (rb == sb && n) mc_fail("rank %d: the two buffers of a reduction are the same", r); Coll &x = enter(c, rsig("Allreduce", n, t, op), bytes(sb == MPI_IN_PLACE ? rb : sb, n * tsz(t)), -1, r); put(rb, reduce_all(x, k, n, t, op)); return 0; }
static int scan(const char *nm, bool ex, const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { Off o; int r; cm(c, r); Coll &x = enter(c, rsig(nm, n, t, op), bytes(sb == MPI_IN_PLACE ? rb : sb, n * tsz(t)), -1, r); int e = ex ? r : r + 1; if (e == 0) return 0; str s = x.data[0]; for (int i = 1; i < e; i++) reduce1(s, x.data[i], n, t, op); put(rb, s); return 0; }
int MPI_Scan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return scan("Scan", false, sb, rb, n, t, op, c); }
int MPI_Exscan(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return scan("Exscan", true, sb, rb, n, t, op, c); }
int MPI_Gatherv(const void *sb, int n, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm c) { Off o; int r; Comm &m = cm(c, r); root_ok(root, m); int k = m.mem.size(); Coll &x = enter(c, gsig("Gather", root), sb == MPI_IN_PLACE ? bytes((char *)rb + rd[r] * tsz(rt), rc[r] * tsz(rt)) : bytes(sb, n * tsz(st)), r == root ? -1 : -2, r); if (r == root) for (int i = 0; i < k; i++) { if (x.data[i].size() != rc[i] * tsz(rt)) mc_fail("Gather: rank %d sends %zu bytes, the root expects %zu", i, x.data[i].size(), rc[i] * tsz(rt)); if (!(sb == MPI_IN_PLACE && i == r)) put((char *)rb + rd[i] * (long)tsz(rt), x.data[i]); } return 0; }
int MPI_Gather(const void *sb, int n, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { int k; MPI_Comm_size(c, &k); std::vector<int> rc(k, rn), rd(k); for (int i = 0; i < k; i++) rd[i] = i * rn; return MPI_Gatherv(sb, n, st, rb, rc.data(), rd.data(), rt, root, c); }
int MPI_Allgatherv(const void *sb, int n, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) { Off o; int r; int k = cm(c, r).mem.size(); Coll &x = enter(c, gsig("Allgather"), sb == MPI_IN_PLACE ? bytes((char *)rb + rd[r] * tsz(rt), rc[r] * tsz(rt)) : bytes(sb, n * tsz(st)), -1, r); for (int i = 0; i < k; i++) { if (x.data[i].size() != rc[i] * tsz(rt)) mc_fail("Allgather: rank %d sends %zu bytes, rank %d expects %zu", i, x.data[i].size(), r, rc[i] * tsz(rt)); if (!(sb == MPI_IN_PLACE && i == r)) put((char *)rb + rd[i] * (long)tsz(rt), x.data[i]); } return 0; }
int MPI_Allgather(const void *sb, int n, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) { int k; MPI_Comm_size(c, &k); std::vector<int> rc(k, rn), rd(k); for (int i = 0; i < k; i++) rd[i] = i * rn; return MPI_Allgatherv(sb, n, st, rb, rc.data(), rd.data(), rt, c); }
int MPI_Scatterv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, int n, MPI_Datatype rt, int root, MPI_Comm c) { Off o; int r; Comm &m = cm(c, r); root_ok(root, m); int k = m.mem.size(); str all; if (r == root) { std::vector<long> len; for (int i = 0; i < k; i++) { long l = sc[i] * tsz(st); all += bytes(&l, 8); all += bytes((char *)sb + sd[i] * (long)tsz(st), l); } } Coll &x = enter(c, gsig("Scatter", root), all, r == root ? -2 : root, r); if (rb == MPI_IN_PLACE) return 0; size_t p = 0; long l = 0; for (int i = 0;; i++) { memcpy(&l, &x.data[root][p], 8); p += 8; if (i == r) break; p += l; } if (l != (long)(n * tsz(rt))) mc_fail("Scatter: the root sends %ld bytes to rank %d which expects %zu", l, r, n * tsz(rt)); put(rb, x.data[root].substr(p, l)); return 0; }
int MPI_Scatter(const void *sb, int n, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { int k; MPI_Comm_size(c, &k); std::vector<int> rc(k, n), rd(k); for (int i = 0; i < k; i++) rd[i] = i * n; return MPI_Scatterv(sb, rc.data(), rd.data(), st, rb, rn, rt, root, c); }
int MPI_Alltoallv(const void *sb, const int *sc, const int *sd, MPI_Datatype st, void *rb, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c) { Off o; int r; int k = cm(c, r).mem.size(); str all; for (int i = 0; i < k; i++) { long l = sc[i] * (long)tsz(st); all += bytes(&l, 8); all += bytes((char *)sb + sd[i] * (long)tsz(st), l); } Coll &x = enter(c, gsig("Alltoall"), all, -1, r);
    for (int i = 0; i < k; i++) { size_t p = 0; long l = 0; for (int j = 0;; j++) { memcpy(&l, &x.data[i][p], 8); p += 8; if (j == r) break; p += l; } if (l != (long)(rc[i] * tsz(rt))) mc_fail("Alltoall: rank %d sends %ld bytes to rank %d which expects %zu", i, l, r, rc[i] * tsz(rt)); put((char *)rb + rd[i] * (long)tsz(rt), x.data[i].substr(p, l)); } return 0; }
int MPI_Alltoall(const void *sb, int n, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm c) { int k; MPI_Comm_size(c, &k); std::vector<int> sc(k, n), sd(k), rc(k, rn), rd(k); for (int i = 0; i < k; i++) sd[i] = i * n, rd[i] = i * rn; return MPI_Alltoallv(sb, sc.data(), sd.data(), st, rb, rc.data(), rd.data(), rt, c); }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { Off o; *q = post(0, (void *)b, n * tsz(t), d, tag, c, false); return 0; }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { Off o; *q = post(0, (void *)b, n * tsz(t), d, tag, c, true); return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q) { Off o; *q = post(1, b, n * tsz(t), s, tag, c, false); return 0; }
int MPI_Wait(MPI_Request *q, MPI_Status *st) { Off o; if (*q != MPI_REQUEST_NULL) waitreq(*q, st); *q = MPI_REQUEST_NULL; return 0; }
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st) { for (int i = 0; i < n; i++) MPI_Wait(q + i, st ? st + i : nullptr); return 0; }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request q; MPI_Isend(b, n, t, d, tag, c, &q); return MPI_Wait(&q, nullptr); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request q; MPI_Issend(b, n, t, d, tag, c, &q); return MPI_Wait(&q, nullptr); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { MPI_Request q; MPI_Irecv(b, n, t, s, tag, c, &q); return MPI_Wait(&q, st); }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *stt) { MPI_Request a, b; MPI_Irecv(rb, rn, rt, s, rtag, c, &a); MPI_Isend(sb, sn, st, d, stag, c, &b); MPI_Wait(&a, stt); return MPI_Wait(&b, nullptr); }
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st) { Off o; int rank; cm(c, rank); Req r = {1, rank, false, nullptr, nullptr, 0, s, tag, c, {}, false}; auto find = [&]() -> Msg * { for (auto &m : msgs) if (match(r, *m)) return m.get(); return nullptr; }; if (!find()) sched_wait("probe", [&]() { return find() != nullptr; }); Msg *m = find(); mc_hb_import(me(), m->clk); if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->bytes_ = m->data.size(); } return 0; }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { size_t k = tsz(t); *n = k ? s->bytes_ / k : 0; return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *out) { Off o; size_t z; if (t >= MPI_CHAR && t < MPI_LAST_TYPE_) z = tsize[t - MPI_CHAR]; else z = types[t].size; if (n < 0) mc_fail("rank %d: MPI type of %d elements", me(), n); *out = nexttype++; types[*out] = {z * n, false, false}; return 0; }
int MPI_Type_commit(MPI_Datatype *t) { types[*t].committed = true; return 0; }
int MPI_Type_free(MPI_Datatype *t) { Off o; tsz(*t); types[*t].freed = true; *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int *n) { Off o; *n = t >= MPI_CHAR && t < MPI_LAST_TYPE_ ? tsize[t - MPI_CHAR] : types[t].size; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { int n; MPI_Type_size(t, &n); *lb = 0; *e = n; return 0; }
}
