// C13: collective reads and writes against one serial call over the concatenation.
#include "ranks.h"
struct T { const char *block, *arr; int nm; };
static const std::vector<T> TS = {{"<i4", "<i4", 1}, {">i4", "<i4", 2}, {"<f4", "<f8", 1}, {">u4", "<i8", 3}, {"|S3", "|S3", 1}};
static const std::vector<sizes_t> PARTS = {{9}, {4, 5}, {1, 0, 3, 2, 3}, {1, 1, 1, 1, 1, 1, 1, 1, 1}};
// values every type involved can represent
static str vals(const T &t, int stamp, size_t r0, size_t n) { str s; for (size_t i = r0; i < r0 + n; i++) for (int m = 0; m < t.nm; m++) { long v = 1 + (stamp * 7919 + i * 31 + m * 3) % 30000; str d = t.arr; if (d == "<i4") { int x = v; s.append((char *)&x, 4); } else if (d == "<i8") s.append((char *)&v, 8); else if (d == "<f8") { double x = v; s.append((char *)&x, 8); } else s += rowpat(stamp, i, 3); } return s; }
struct Arr { std::vector<char> mem; BigArray a; size_t n, es, gap; T t; int nm;
    // the rank's rows in an array with optional padding between the elements of a row and between rows, surrounded by guards
    Arr(Lib &l, const T &t_, size_t n_, int shape, const str *v) : n(n_), t(t_), nm(t_.nm) { es = width(t.arr); size_t cs = shape == 1 ? es * 2 : es, rs = cs * nm + (shape ? 5 * es : 0); mem.assign(64 + rs * n + 64, '\x77'); size_t d[2] = {n, (size_t)nm}; ptrdiff_t st[2] = {(ptrdiff_t)rs, (ptrdiff_t)cs}; char *base = mem.data() + 64; if (shape == 2 && n) { st[0] = -(ptrdiff_t)rs; base += rs * (n - 1); }
        l.big_array_init(&a, base, t.arr, 2, d, shape ? st : NULL); if (v) for (size_t i = 0; i < n; i++) for (int m = 0; m < nm; m++) memcpy(base + st[0] * (ptrdiff_t)i + st[1] * m, v->data() + (i * nm + m) * es, es); copy = mem; b = base; s0 = st[0]; s1 = st[1]; }
    std::vector<char> copy; char *b; ptrdiff_t s0, s1;
    str get() { str s; for (size_t i = 0; i < n; i++) for (int m = 0; m < nm; m++) { s.append(b + s0 * (ptrdiff_t)i + s1 * m, es); memcpy(b + s0 * (ptrdiff_t)i + s1 * m, copy.data() + (b - mem.data()) + s0 * (ptrdiff_t)i + s1 * m, es); } return s; }
    bool intact() { return mem == copy; }
};
static void run() {
    int n = 1 + mc_choose(mc_thorough() ? 5 : 4, "ranks"); int conc = mc_pick(std::vector<int>{0, 1, 2, 3, 9}, "concurrency"); size_t thr = mc_pick(std::vector<size_t>{0, 1, 3, 1 << 20}, "threshold"); int sync = mc_choose(2, "late"), fsched = n > 3 ? 0 : mc_choose(2, "file schedule"); mc_split();
    std::vector<size_t> cnt(n); size_t tot = 0; for (int i = 0; i < n; i++) tot += cnt[i] = mc_pick(n <= 3 ? std::vector<size_t>{0, 1, 3} : n == 4 ? std::vector<size_t>{0, 1, 2} : std::vector<size_t>{0, 1}, "rows");
    // the rest varies along with it: every value of each is used with every kind of distribution
    int few = n <= 1 || (n == 2 && mc_thorough()) ? 0 : 1; int ti, pi, at, wr, shape; uint64_t h = 1469598103u; for (auto c : cnt) h = h * 31 + c; h = h * 7 + conc; h = h * 5 + thr % 7; h ^= h >> 11;
    wr = mc_choose(2, "write"); if (few) { int k = mc_choose(mc_thorough() ? 20 : n == 2 ? 10 : n == 3 ? 3 : 2); ti = (h + k) % TS.size(); pi = (h / 5 + k) % PARTS.size(); shape = (h / 20 + k) % 3; } else { ti = mc_choose(TS.size()); pi = mc_choose(PARTS.size()); shape = mc_choose(3); }
    if (tot > 9) return; at = few ? (h / 60) % (10 - tot) : mc_pick(std::vector<int>{0, 1, (int)(9 - tot)}); if (at + tot > 9) return;
    const T &t = TS[ti]; const sizes_t &fs = PARTS[pi]; int bs = (h % 3) ? (h % 3 == 1 ? 1 : 24) : 4096; for (int i = 0; i < n; i++) { L[i].big_file_set_buffer_size(bs); L[i].big_file_mpi_set_aggregated_threshold(thr); }
    str cs; for (auto c : cnt) cs += std::to_string(c) + " "; mc_note("%d ranks with %srows at %d, concurrency %d, threshold %zu, partition %s, %s from %s x %d, shape %d, %s", n, cs.c_str(), at, conc, thr, fmt_sizes(fs).c_str(), t.block, t.arr, t.nm, shape, wr ? "write" : "read");
    mc_wipe("."); str init = vals(t, 9, 0, 9); Lib &l0 = L[0];
    for (const char *root : {"f", "s"}) { if (!wr && *root == 's') continue; BigFile f; BigBlock b; LOK(l0, big_file_create(&f, root)); LOK(l0, big_file_create_block(&f, &b, "b", t.block, t.nm, fs.size(), fs.data())); Arr a(l0, t, 9, 0, &init); BigBlockPtr p; LOK(l0, big_block_seek(&b, &p, 0)); LOK(l0, big_block_write(&b, &p, &a.a)); LOK(l0, big_block_close(&b)); LOK(l0, big_file_close(&f)); }
    str all = vals(t, 1, at, tot); size_t es = width(t.arr) * t.nm;
    if (wr) { BigFile f; BigBlock b; LOK(l0, big_file_open(&f, "s")); LOK(l0, big_file_open_block(&f, &b, "b")); BigBlockPtr p; LOK(l0, big_block_seek(&b, &p, at)); Arr a(l0, t, tot, 0, &all); LOK(l0, big_block_write(&b, &p, &a.a)); LOK(l0, big_block_close(&b)); LOK(l0, big_file_close(&f)); }
    fmpi_sync = sync; auto before = tree("f");
    ranks(n, [&](int r, Lib &l) { McfsScope sc(fsched ? MCFS_SCHED : MCFS_OFF); BigFile f; BigBlock b; LOK(l, big_file_mpi_open(&f, "f", MPI_COMM_WORLD)); LOK(l, big_file_mpi_open_block(&f, &b, "b", MPI_COMM_WORLD)); size_t off = 0; for (int i = 0; i < r; i++) off += cnt[i];
        BigBlockPtr p; LOK(l, big_block_seek(&b, &p, at)); str mine = all.substr(off * es, cnt[r] * es); Arr a(l, t, cnt[r], shape, wr ? &mine : nullptr);
        int rt = wr ? l.big_block_mpi_write(&b, &p, &a.a, conc, MPI_COMM_WORLD) : l.big_block_mpi_read(&b, &p, &a.a, conc, MPI_COMM_WORLD); if (rt) mc_fail("%d: the collective call fails: %s", r, l.err());
        if (!wr) { str g = a.get(), w = init.substr((at + off) * es, cnt[r] * es); MC_CHECK(g == w, "rank %d reads %s, its rows are %s", r, hex(g).c_str(), hex(w).c_str()); }
        MC_CHECK(a.intact(), "rank %d: memory outside of its rows changed%s", r, wr ? " (or its rows)" : "");
        MC_CHECK(p.aoffset == (ptrdiff_t)(at + tot), "rank %d: the position is %td afterwards, expected %zu", r, p.aoffset, at + tot);
        BigBlockPtr q; LOK(l, big_block_seek(&b, &q, at + tot)); MC_CHECK(l.big_block_eof(&b, &p) == l.big_block_eof(&b, &q), "rank %d: eof is %d at %zu of 9", r, l.big_block_eof(&b, &p), at + tot);
        // everyone goes on from there: the rows up to the end, by the last rank
        size_t rest = r == n - 1 ? 9 - at - tot : 0; str tail = vals(t, 2, at + tot, rest); (void)tail; Arr c(l, t, rest, 0, nullptr); rt = l.big_block_mpi_read(&b, &p, &c.a, conc, MPI_COMM_WORLD); if (rt) mc_fail("%d: reading on fails: %s", r, l.err()); str g = c.get(), w = init.substr((at + tot) * es, rest * es); MC_CHECK(g == w && c.intact(), "rank %d: the rows following are %s, expected %s", r, hex(g).c_str(), hex(w).c_str());
        LOK(l, big_block_mpi_close(&b, MPI_COMM_WORLD)); LOK(l, big_file_mpi_close(&f, MPI_COMM_WORLD)); });
    auto x = tree("f"); if (!wr) MC_CHECK(x == before, "reading changed the file"); else { for (size_t i = 0; i < fs.size(); i++) { str g = x["f/b/" + fname(i)], w = slurp("s/b/" + fname(i)); MC_CHECK(g == w, "file %zu holds %s, one serial write leaves %s", i, hex(g).c_str(), hex(w).c_str()); } MC_CHECK(x.size() == before.size(), "files appeared or vanished"); }
    mc_state(tree_hash(x, h + ti * 977 + pi * 31 + shape)); mc_transitions(fmpi_ncoll() ? 4 : 1);
}
int main(int c, char **v) { procs_load(v[0], 5); McOpts o; o.property = "C13"; o.run = run; o.worker_init = sched_fs; mc_before_exec = mcfs_reset; return mc_main(c, v, o); }
