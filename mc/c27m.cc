// C27, collectively: memory, communicators, datatypes and files are released by collective calls, also when they fail.
#include "ranks.h"
#include "memtrack.h"
static const int RS = 4; static const sizes_t FS = {2, 1, 1}; static const char *DT = "<i4"; static int mode;
#define C(call) ([&]() { l.big_file_set_error_message(NULL); int rt__; { McfsScope s__(mode); rt__ = (call); } mc_transitions(); if (rt__) { mc_note("  %d: " #call " fails: %s", r, l.err()); mc_count(1); } return rt__ == 0; }())
enum { O_RW, O_GROW, O_ATTR, O_PAIR, NO };
static void check(int n) {
    for (int i = 0; i < 5; i++) L[i].big_file_set_error_message(NULL); str w; int k = mem_live(&w); MC_CHECK(k == 0, "%d ranks: %d allocations of the library are left when everything is closed: %s", n, k, w.c_str());
    k = fmpi_leaked(&w); MC_CHECK(k == 0, "%d ranks: not freed: %s", n, w.c_str()); k = mcfs_leaked(&w); MC_CHECK(k == 0, "%d ranks: %d files are left open: %s", n, k, w.c_str());
}
static void start(int n, size_t thr) {
    for (int i = 0; i < 5; i++) { L[i].big_file_set_buffer_size(8); L[i].big_file_set_error_message(NULL); if (i < n) L[i].big_file_mpi_set_aggregated_threshold(thr); } mc_wipe("."); mcfs_reset(); mem_reset();
    Lib &s = L[4]; BigFile f0; BigBlock b0; LOK(s, big_file_create(&f0, "f")); LOK(s, big_file_create_block(&f0, &b0, "g/b", DT, 1, FS.size(), FS.data())); Buf v(rowsn(9, 0, 4, RS)); BigArray a0; size_t d[2] = {4, 1}; s.big_array_init(&a0, v.p, DT, 2, d, NULL); BigBlockPtr q0; LOK(s, big_block_seek(&b0, &q0, 0)); LOK(s, big_block_write(&b0, &q0, &a0)); LOK(s, big_block_set_attr(&b0, "x", "y", "S1", 1)); LOK(s, big_block_close(&b0)); LOK(s, big_file_close(&f0)); mem_reset();
}
static void blocks() {
    int n = 1 + mc_choose(mc_thorough() ? 4 : 3, "ranks"), how = mc_choose(3, "how"), op = mc_choose(NO, "op"), op2 = mc_choose(NO), bad = mc_choose(4, "bad"); mc_split(); fmpi_sync = mc_choose(2); size_t thr = mc_choose(2) ? 100 : 0; int conc = mc_choose(2); mode = mc_choose(2) ? MCFS_FAULT : MCFS_LOG; if (bad && mode == MCFS_FAULT) return;
    start(n, thr); mc_note("%d ranks, case %d, operations %d %d, bad %d, threshold %zu, concurrency %d", n, how, op, op2, bad, thr, conc);
    ranks(n, [&](int r, Lib &l) { MPI_Comm W = MPI_COMM_WORLD; BigFile f, g; BigBlock b; size_t f2[3] = {1, 0, 2}, huge[3] = {1, (size_t)-1 / 2, (size_t)-1 / 2};
        if (bad == 1) { if (C(l.big_file_mpi_open(&g, "none", W))) C(l.big_file_mpi_close(&g, W)); if (C(l.big_file_mpi_create(&g, "f/g/b/header/x", W))) C(l.big_file_mpi_close(&g, W)); }
        if (how == 0 ? !C(l.big_file_mpi_open(&f, "f", W)) : !C(l.big_file_mpi_create(&f, "f", W))) return;
        if (bad == 2) { if (C(l.big_file_mpi_open_block(&f, &b, "none", W))) C(l.big_block_mpi_close(&b, W)); if (C(l._big_file_mpi_create_block(&f, &b, "g/b/header/c", DT, 1, 3, f2, W))) C(l.big_block_mpi_close(&b, W)); if (C(l._big_file_mpi_create_block(&f, &b, "a b", DT, 1, 3, f2, W))) C(l.big_block_mpi_close(&b, W)); if (C(l._big_file_mpi_create_block(&f, &b, "n", "toolongtype", 1, 3, f2, W))) C(l.big_block_mpi_close(&b, W)); if (C(l._big_file_mpi_create_block(&f, &b, "n", DT, 1, 3, huge, W))) C(l.big_block_mpi_close(&b, W)); }
        bool ok = how == 2 ? C(l._big_file_mpi_create_block(&f, &b, "new/c", DT, 1, 3, f2, W)) : C(l.big_file_mpi_open_block(&f, &b, "g/b", W));
        if (ok) {
            for (int o : {op, op2}) switch (o) {
            case O_RW: for (int w = 1; w >= 0; w--) { BigBlockPtr q; memset(&q, 0, sizeof q); size_t k = r < 2 ? 1 : 0; Buf m(rowsn(1, r, k, RS)); BigArray a; size_t dd[2] = {k, 1}; l.big_array_init(&a, m.p, bad == 3 && r == n - 1 && k ? "<u2" : DT, 2, dd, NULL); l.big_block_seek(&b, &q, bad == 3 && w ? 3 : 0); C(w ? l.big_block_mpi_write(&b, &q, &a, conc, W) : l.big_block_mpi_read(&b, &q, &a, conc, W)); } break;
            case O_GROW: C(l.big_block_mpi_grow(&b, bad == 3 ? 3 : 2, bad == 3 ? huge : f2, W)); break;
            case O_ATTR: if (r == 0) { int v[30] = {1}; C(l.big_block_set_attr(&b, "x", v, "<i4", 30)); C(l.big_block_set_attr(&b, "new", v, "<i4", 1)); } C(l.big_block_mpi_flush(&b, W)); break;
            case O_PAIR: { BigBlock c; if (C(l.big_file_mpi_open_block(&f, &c, bad == 3 ? "none" : "g/b", W))) C(l.big_block_mpi_close(&c, W)); break; }
            }
            C(l.big_block_mpi_close(&b, W));
        }
        C(l.big_file_mpi_close(&f, W)); });
    check(n); mc_state(tree_hash(tree("f"), n * 64 + how * 16 + op * 4 + op2));
}
static void records() {
    int n = 1 + mc_choose(3, "ranks"), bad = mc_choose(4, "bad"); mc_split(); fmpi_sync = mc_choose(2); size_t thr = mc_choose(2) ? 100 : 0; int conc = mc_choose(2); mode = bad ? MCFS_LOG : MCFS_FAULT; start(n, thr); BigRecordType rt; memset(&rt, 0, sizeof rt); L[4].big_record_type_add(&rt, "r/one", "<i4", 1); L[4].big_record_type_add(&rt, bad == 3 ? "g/b/header/x" : "r/two", "<u2", 2); L[4].big_record_type_complete(&rt);
    ranks(n, [&](int r, Lib &l) { MPI_Comm W = MPI_COMM_WORLD; BigFile f; size_t f2[2] = {1, 2}; char buf[64] = {0}; if (!C(l.big_file_mpi_open(&f, "f", W))) return; size_t k = r < 2 ? 1 : 0;
        if (C(l.big_file_mpi_create_records(&f, &rt, bad == 1 ? "x" : "w+", 2, f2, W)) || bad) { C(l.big_file_mpi_write_records(&f, &rt, bad == 2 ? 3 : 0, k, buf, conc, W)); C(l.big_file_mpi_read_records(&f, &rt, bad == 2 ? 3 : 0, k, buf, conc, W)); C(l.big_file_mpi_create_records(&f, &rt, "a+", 1, f2, W)); }
        C(l.big_file_mpi_close(&f, W)); });
    L[4].big_record_type_clear(&rt); check(n); mc_state(tree_hash(tree("f"), n));
}
static void helpers() {
    int n = 1 + mc_choose(4, "ranks"), root = mc_choose(n), pol = mc_choose(3), nulls = mc_choose(8); mc_split(); fmpi_sync = mc_choose(2); std::vector<int> c(n); for (auto &x : c) x = mc_choose(3); start(n, 0);
    ranks(n, [&](int r, Lib &l) { MPI_Comm W = MPI_COMM_WORLD; std::vector<int> sc(n), rc(n), sd(n), rd(n); int s = 0, q = 0, tot = 0; for (int i = 0; i < n; i++) { sc[i] = (c[i] + r) % 3; rc[i] = (c[r] + i) % 3; sd[i] = s; rd[i] = q; s += sc[i]; q += rc[i]; tot += c[i]; } std::vector<int> S(s + 1), R(q + 1), A(tot + 1);
        l.MPIU_Alltoallv(S.data(), sc.data(), nulls & 1 ? NULL : sd.data(), MPI_INT, R.data(), nulls & 2 ? NULL : rc.data(), nulls & 4 ? NULL : rd.data(), MPI_INT, W, (MPIU_AlltoallvSparsePolicy)pol);
        void *p = l.MPIU_Gather(W, root, A.data(), NULL, c[r], 4, NULL); if (p) mem_free(p); p = l.MPIU_Scatter(W, root, A.data(), NULL, c[r], 4, NULL); if (p) mem_free(p); long x = c[r]; l.MPIU_GetLoc(&x, MPI_LONG, MPI_MAX, W);
        std::vector<size_t> sizes(n); size_t off; l.MPIU_Segmenter_collect_sizes(c[r], sizes.data(), &off, W); MPIU_Segmenter g; l.MPIU_Segmenter_init(&g, sizes.data(), NULL, 1 + pol, 1 + root, W); l.MPIU_Segmenter_destroy(&g); });
    check(n); uint64_t h = n; for (int x : c) h = h * 31 + x; mc_state(h);
}
static void run() { switch (mc_choose(3)) { case 0: return blocks(); case 1: return records(); default: return helpers(); } }
int main(int c, char **v) { procs_load(v[0], 5); McOpts o; o.property = "C27"; o.run = run; o.worker_init = sched_fs; o.deviations = 1; o.counters[1] = "failed calls (per rank)"; mc_before_exec = mcfs_reset; return mc_main(c, v, o); }
