// C01: round trip of any history.
#include "bf.h"
struct Model { str dt; int nm; size_t rs; sizes_t fs; std::vector<str> rows; };   // rows[i] empty = never written
static BigFile bf;
static void check(BigBlock *bb, Model &m, size_t i, size_t n) {
    str got; bool complete = true, any = false; str want;
    for (size_t k = i; k < i + n; k++) { if (m.rows[k].empty()) { complete = false; want += str(m.rs, 0); } else { any = true; want += m.rows[k]; } }
    (void)any;
    int rt = rd_at(bb, i, n, got, m.dt.c_str(), m.nm);
    if (rt != 0) { MC_CHECK(!complete, "reading rows [%zu,%zu), all of them written, failed: %s", i, i + n, errmsg()); return; }
    if (got != want) mc_fail("rows [%zu,%zu) of %s nmemb %d files %s read as %s, expected %s", i, i + n, m.dt.c_str(), m.nm, fmt_sizes(m.fs).c_str(), hex(got).c_str(), hex(want).c_str());
}
static void check_simple(BigBlock *bb, Model &m, size_t i, size_t n) {
    str got, want; size_t rows = 0; bool complete = true; size_t e = std::min(i + n, m.rows.size());
    for (size_t k = i; k < e; k++) { if (m.rows[k].empty()) { complete = false; want += str(m.rs, 0); } else want += m.rows[k]; }
    int rt = rd_simple(bb, i, n, got, rows, NULL);
    if (rt) { MC_CHECK(!complete, "read_simple(%zu,%zu) failed: %s", i, n, errmsg()); return; }
    MC_CHECK(rows == e - i && got == want, "read_simple(%zu,%zu) gave %zu rows %s, expected %s", i, n, rows, hex(got).c_str(), hex(want).c_str());
}
static void check_all(BigBlock *bb, Model &m) {
    size_t N = m.rows.size();
    MC_CHECK(bb->size == N, "block size %zu, expected %zu", bb->size, N);
    for (size_t i = 0; i < N; i++) check(bb, m, i, 1);
    if (N) check(bb, m, 0, N);
    if (N > 2) { check(bb, m, 1, N - 1); check(bb, m, 0, N - 1); check(bb, m, 1, N - 2); }
    check_simple(bb, m, 0, N + 2);
    if (N) check_simple(bb, m, N - 1, 1);
}
static void state(Model &m) { uint64_t h = mc_hash_str(m.dt); for (auto &r : m.rows) h = mc_hash_str(r, h); for (auto x : m.fs) h = mc_hash(&x, 8, h); mc_state(h); }
static void history(Model m, size_t bufbytes, int depth, int first = -1) {
    BigBlock bb, other; size_t one[1] = {2};
    big_file_set_buffer_size(4096);
    OK(big_file_create(&bf, "bf"));
    OK(big_file_create_block(&bf, &other, "other", "<i4", 1, 1, one));
    OK(wr_at(&other, 0, "abcdefgh", "<i4", 1)); OK(big_block_close(&other));
    big_file_set_buffer_size(bufbytes);
    OK(big_file_create_block(&bf, &bb, "grp/blk", m.dt.c_str(), m.nm, m.fs.size(), m.fs.data()));
    m.rows.assign(total(m.fs), "");
    mc_note("create %s nmemb %d files %s, buffer %zu bytes", m.dt.c_str(), m.nm, fmt_sizes(m.fs).c_str(), bufbytes);
    for (int d = 0; d < depth; d++) {
        size_t N = m.rows.size(); size_t nw = N * (N + 1) / 2;
        int op = d == 0 && first >= 0 ? first : mc_choose(nw + 5, "op");
        if (op < (int)nw) {
            size_t k = op, i = 0; while (k >= N - i) { k -= N - i; i++; }
            size_t len = k + 1; str bytes;
            for (size_t r = i; r < i + len; r++) { m.rows[r] = rowpat(d + 1, r, m.rs); bytes += m.rows[r]; }
            mc_note("write rows [%zu,%zu)", i, i + len);
            OK(wr_at(&bb, i, bytes, m.dt.c_str(), m.nm));
        } else switch (op - nw) {
            case 0: mc_note("flush"); OK(big_block_flush(&bb)); break;
            case 1: mc_note("close, open"); OK(big_block_close(&bb)); OK(big_file_open_block(&bf, &bb, "grp/blk")); break;
            case 2: case 3: { sizes_t g = op - nw == 2 ? sizes_t{2} : sizes_t{0, 1, 0, 1}; mc_note("grow %s", fmt_sizes(g).c_str());
                OK(big_block_grow(&bb, g.size(), g.data())); for (auto x : g) { m.fs.push_back(x); m.rows.resize(m.rows.size() + x); } break; }
            case 4: { mc_note("another client changes another block"); OK(big_file_open_block(&bf, &other, "other")); OK(wr_at(&other, 1, "WXYZ", "<i4", 1)); OK(wr_at(&other, 0, "abcd", "<i4", 1)); OK(wr_at(&other, 1, "efgh", "<i4", 1)); OK(big_block_close(&other)); break; }
        }
        state(m);
        if (d < depth - 1) { size_t N2 = m.rows.size(); if (N2) { check(&bb, m, 0, N2); check(&bb, m, N2 - 1, 1); } }
    }
    check_all(&bb, m);
    OK(big_block_close(&bb));
    for (size_t bs : {m.rs, 2 * m.rs + 1, (size_t)4096}) {
        big_file_set_buffer_size(bs);
        OK(big_file_open_block(&bf, &bb, "grp/blk")); check_all(&bb, m); OK(big_block_close(&bb));
    }
    OK(big_file_open_block(&bf, &other, "other")); str s; OK(rd_at(&other, 0, 2, s, "<i4", 1)); MC_CHECK(s == "abcdefgh", "the other block changed"); OK(big_block_close(&other));
    OK(big_file_close(&bf));
}
static void huge() {   // sparse files beyond 2^31 rows and 4 GiB
    static const std::vector<sizes_t> geo = {{(size_t)1 << 33}, {((size_t)1 << 31) + 3, 2, (size_t)1 << 32}, {5, 0, ((size_t)1 << 32) + 7, 1}};
    const sizes_t &fs = mc_pick(geo); struct T { const char *dt; int nm; }; static const std::vector<T> ts = {{"<i8", 1}, {"<f4", 3}, {"|S1", 1}};
    const T &t = mc_pick(ts); size_t bufrows = mc_choose(2) + 1; mc_split();
    size_t rs = width(t.dt) * t.nm; big_file_set_buffer_size(bufrows * rs + 1);
    BigBlock bb; OK(big_file_create(&bf, "bf")); OK(big_file_create_block(&bf, &bb, "h", t.dt, t.nm, fs.size(), fs.data()));
    std::vector<size_t> at; size_t off = 0; for (auto f : fs) { for (size_t x : {(size_t)0, (size_t)1 << 29, ((size_t)1 << 30) - 1, ((size_t)1 << 31) - 1, ((size_t)1 << 32) - 1, ((size_t)1 << 32), f - 2}) if (x < f && f > 3) at.push_back(off + x); off += f; }
    std::map<size_t, str> w; size_t N = total(fs);
    MC_CHECK(bb.size == N, "size %zu expected %zu", bb.size, N);
    for (int d = 0; d < 2; d++) {
        size_t i = mc_pick(at); size_t len = std::min<size_t>(N - i, 3); str bytes;
        for (size_t r = i; r < i + len; r++) bytes += w[r] = rowpat(d + 1, r, rs);
        mc_note("huge %s: write [%zu,+%zu)", fmt_sizes(fs).c_str(), i, len);
        OK(wr_at(&bb, i, bytes, t.dt, t.nm)); mc_state(mc_hash(&i, 8, d + N));
        if (mc_choose(2)) { OK(big_block_close(&bb)); OK(big_file_open_block(&bf, &bb, "h")); MC_CHECK(bb.size == N, "size changed to %zu", bb.size); }
    }
    for (auto &x : w) { str s; OK(rd_at(&bb, x.first, 1, s, t.dt, t.nm)); MC_CHECK(s == x.second, "row %zu reads %s, expected %s", x.first, hex(s).c_str(), hex(x.second).c_str());
        size_t rows; OK(rd_simple(&bb, x.first, 1, s, rows, NULL)); MC_CHECK(s == x.second, "row %zu reads differently with read_simple", x.first);
        for (size_t nb : {x.first - 1, x.first + 1}) if (nb < N && !w.count(nb)) { if (rd_at(&bb, nb, 1, s, t.dt, t.nm) == 0) MC_CHECK(s == str(rs, 0), "unwritten row %zu reads %s", nb, hex(s).c_str()); } }
    OK(big_block_close(&bb)); OK(big_file_close(&bf));
}
static void manyfiles() {  // more files than one or two hexadecimal digits
    int nf = mc_choose(2) ? 18 : 258; int rpf = 1 + mc_choose(2); int buf = 1 + mc_choose(3); mc_split();
    Model m; m.dt = "<i4"; m.nm = 1; m.rs = 4; m.fs.assign(nf, rpf); m.fs[3] = 0; m.rows.assign(total(m.fs), "");
    big_file_set_buffer_size(buf * 4); BigBlock bb; OK(big_file_create(&bf, "bf")); OK(big_file_create_block(&bf, &bb, "h", "<i4", 1, nf, m.fs.data()));
    size_t N = m.rows.size();
    std::vector<std::pair<size_t, size_t>> iv = {{0, N}, {N / 2, N}, {8 * rpf, 18 * rpf > N ? N : 18 * rpf}, {N - 1, N}};
    for (int d = 0; d < 2; d++) { auto v = mc_pick(iv); str bytes; for (size_t r = v.first; r < v.second; r++) bytes += m.rows[r] = rowpat(d, r, 4); mc_note("%d files: write [%zu,%zu)", nf, v.first, v.second); OK(wr_at(&bb, v.first, bytes, "<i4", 1)); state(m); }
    sizes_t g(20, 1); OK(big_block_grow(&bb, 20, g.data())); m.rows.resize(N + 20); m.fs.insert(m.fs.end(), g.begin(), g.end());
    str bytes; for (size_t r = N - 1; r < N + 20; r++) bytes += m.rows[r] = rowpat(9, r, 4);
    OK(wr_at(&bb, N - 1, bytes, "<i4", 1));
    OK(big_block_close(&bb)); OK(big_file_open_block(&bf, &bb, "h")); check_all(&bb, m); OK(big_block_close(&bb)); OK(big_file_close(&bf));
}
static std::vector<sizes_t> P; static void init() {
    parts(4, 3, P); for (auto f : {sizes_t{}, sizes_t{0}, sizes_t{0, 0}, sizes_t{1}, sizes_t{4}, sizes_t{5}, sizes_t{2, 3}, sizes_t{0, 2, 0, 3, 0}, sizes_t{1, 1, 1, 1, 1}, sizes_t{3, 0, 0, 2}}) P.push_back(f);
}
static void run() {
    struct T { const char *dt; int nm; };
    static const std::vector<T> ts = {{"<i8", 1}, {">f4", 3}, {"<S5", 2}, {">c16", 1}, {"<b1", 1}, {"<u2", 1}};
    if (P.empty()) init();
    int mode = mc_choose(4, "mode");
    if (mode == 0) { huge(); return; }
    if (mode == 1) { manyfiles(); return; }
    Model m;
    if (mode == 2) {  // depth 2 (3), every partition x type x buffer
        m.fs = mc_pick(P); const T &t = mc_pick(ts); m.dt = t.dt; m.nm = t.nm; m.rs = width(t.dt) * (t.nm ? t.nm : 1);
        static const int br[] = {1, 2, 3, 100}; size_t rows = br[mc_choose(4)]; size_t extra = rows == 2 ? m.rs - 1 : 0; mc_split();
        history(m, rows * m.rs + extra, mc_thorough() ? 3 : 2);
    } else {          // deeper, selected partitions
        static const std::vector<sizes_t> Q = {{2, 0, 2}, {1, 3}, {0, 3, 0}, {4}};
        m.fs = mc_pick(Q); const T &t = ts[mc_choose(2)]; m.dt = t.dt; m.nm = t.nm; m.rs = width(t.dt) * t.nm;
        size_t rows = 1 + mc_choose(2), N = total(m.fs); int first = mc_choose(N * (N + 1) / 2 + 5, "first"); mc_split();
        history(m, rows * m.rs, mc_thorough() ? 4 : 3, first);
    }
}
int main(int argc, char **argv) { mc_track_module("libbf"); McOpts o; o.property = "C01"; o.run = run; return mc_main(argc, argv, o); }
