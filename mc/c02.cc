// C02: positions, end-of-block and range checks.
#include "bf.h"
static BigFile bf;
struct St { str dt; int nm; size_t rs; sizes_t fs; std::vector<str> rows; size_t pos; };
static str join(const St &s, size_t i, size_t n) { str r; for (size_t k = i; k < i + n; k++) r += s.rows[k]; return r; }
// which row is the position at?  (end: N)
static void probe(BigBlock *bb, BigBlockPtr *p, St &s, const char *after) {
    size_t N = s.rows.size(); int eof = big_block_eof(bb, p);
    MC_CHECK(!!eof == (s.pos == N), "%s: end of block reported %d at position %zu of %zu", after, eof, s.pos, N);
    BigBlockPtr q = *p; str got; int rt = rd(bb, &q, 1, got, s.dt.c_str(), s.nm);
    if (s.pos == N) { MC_CHECK(rt != 0, "%s: reading at the end of the block succeeded", after); return; }
    MC_CHECK(rt == 0, "%s: reading the row at position %zu failed: %s", after, s.pos, errmsg());
    MC_CHECK(got == s.rows[s.pos], "%s: position is not %zu: the row there is %s, expected %s", after, s.pos, hex(got).c_str(), hex(s.rows[s.pos]).c_str());
}
static void seq(St s, size_t buf, int depth, int first) {
    size_t N = total(s.fs); s.rows.resize(N); BigBlock bb, ot; size_t two[1] = {2};
    big_file_set_buffer_size(4096); OK(big_file_create(&bf, "bf"));
    mc_wipe("bf");
    OK(big_file_create_block(&bf, &ot, "zz", "<i4", 1, 1, two)); OK(wr_at(&ot, 0, "abcdefgh", "<i4", 1)); OK(big_block_close(&ot));
    OK(big_file_create_block(&bf, &bb, "b", s.dt.c_str(), s.nm, s.fs.size(), s.fs.data()));
    for (size_t r = 0; r < N; r++) s.rows[r] = rowpat(7, r, s.rs);
    if (N) OK(wr_at(&bb, 0, join(s, 0, N), s.dt.c_str(), s.nm));
    big_file_set_buffer_size(buf);
    mc_note("%s nmemb %d files %s buffer %zu", s.dt.c_str(), s.nm, fmt_sizes(s.fs).c_str(), buf);
    BigBlockPtr p; memset(&p, 0, sizeof p); OK(big_block_seek(&bb, &p, 0)); s.pos = 0;
    ptrdiff_t n = N;
    for (int d = 0; d < depth; d++) {
        int op = d == 0 ? first : mc_choose(4 * n + 16, "op"); str a;
        if (op < 2 * n + 4) {           // seek
            ptrdiff_t o = op - n - 1;   // -N-1 .. N+2
            ptrdiff_t t = o < 0 ? o + n : o; int rt = big_block_seek(&bb, &p, o); mc_transitions();
            a = sprintfs("seek(%td)", o); mc_note("%s -> %d", a.c_str(), rt);
            if (t >= 0 && t <= n) { MC_CHECK(rt == 0, "%s of %td failed: %s", a.c_str(), n, errmsg()); s.pos = t; } else MC_CHECK(rt != 0, "%s of %td succeeded", a.c_str(), n);
        } else if ((op -= 2 * n + 4) < n + 5) {   // seek_rel to -2..N+2
            ptrdiff_t t = op - 2, r = t - (ptrdiff_t)s.pos; a = sprintfs("seek_rel(%td) from %zu", r, s.pos);
            if (t < 0) continue;        // below the first row: unspecified
            int rt = big_block_seek_rel(&bb, &p, r); mc_transitions(); mc_note("%s -> %d", a.c_str(), rt);
            if (t <= n) { MC_CHECK(rt == 0, "%s of %td failed: %s", a.c_str(), n, errmsg()); s.pos = t; } else MC_CHECK(rt != 0, "%s of %td succeeded", a.c_str(), n);
        } else if ((op -= n + 5) < n + 3) {       // read op rows (0..N+1, and a lot)
            size_t k = op == n + 2 ? n + 1000 : op; str got; a = sprintfs("read(%zu) at %zu", k, s.pos);
            int rt = rd(&bb, &p, k, got, s.dt.c_str(), s.nm); mc_note("%s -> %d", a.c_str(), rt);
            if (s.pos + k <= N) { MC_CHECK(rt == 0, "%s of %zu failed: %s", a.c_str(), N, errmsg()); MC_CHECK(got == join(s, s.pos, k), "%s gave %s, expected %s", a.c_str(), hex(got).c_str(), hex(join(s, s.pos, k)).c_str()); s.pos += k; }
            else MC_CHECK(rt != 0, "%s of %zu rows succeeded", a.c_str(), N);
        } else { op -= n + 3;                      // write op rows (0..N+1, a lot)
            if (op > n + 2) op = n + 2;
            size_t k = op == n + 2 ? n + 1000 : op; str b; for (size_t r = 0; r < k; r++) b += rowpat(100 + d, s.pos + r, s.rs); a = sprintfs("write(%zu) at %zu", k, s.pos);
            int rt = wr(&bb, &p, b, s.dt.c_str(), s.nm); mc_note("%s -> %d", a.c_str(), rt);
            if (s.pos + k <= N) { MC_CHECK(rt == 0, "%s of %zu failed: %s", a.c_str(), N, errmsg()); for (size_t r = 0; r < k; r++) s.rows[s.pos + r] = b.substr(r * s.rs, s.rs); s.pos += k; }
            else MC_CHECK(rt != 0, "%s of %zu rows succeeded", a.c_str(), N);
        }
        probe(&bb, &p, s, a.c_str()); mc_state(mc_hash_str(join(s, 0, N), s.pos * 1000 + mc_hash(s.fs.data(), 8 * s.fs.size())));
    }
    // the whole content, and nothing but the files of the block
    str want = join(s, 0, N), raw; std::set<str> ok = {"bf/b/header", "bf/b/attr-v2", "bf/b/", "bf/zz/", "bf/zz/header", "bf/zz/attr-v2", "bf/zz/000000"};
    auto t = tree("bf");
    for (size_t f = 0; f < s.fs.size(); f++) { str pn = "bf/b/" + fname(f); ok.insert(pn); MC_CHECK(t.count(pn), "file %s is missing", pn.c_str()); MC_CHECK(t[pn].size() == s.fs[f] * s.rs, "file %s has %zu bytes, expected %zu", pn.c_str(), t[pn].size(), s.fs[f] * s.rs); raw += t[pn]; }
    MC_CHECK(raw == want, "the rows are %s, expected %s", hex(raw).c_str(), hex(want).c_str());
    for (auto &x : t) MC_CHECK(ok.count(x.first), "unexpected file %s", x.first.c_str());
    MC_CHECK(t["bf/zz/000000"] == "abcdefgh", "the other block changed");
    OK(big_block_close(&bb)); OK(big_file_open_block(&bf, &bb, "b")); MC_CHECK(bb.size == N, "size is %zu after re-opening, expected %zu", bb.size, N); OK(big_block_close(&bb));
    OK(big_file_close(&bf));
}
static const std::vector<const char *> DT = {"<i4", "<i8", "<f4", "<f8", ">i8", ">f4", "=u4", "u8"};
static double val(const char *d, const char *p) { str t = d; bool be = t[0] == '>'; if (strchr("<>=", t[0])) t = t.substr(1); int w = atoi(t.c_str() + 1); char b[8]; for (int i = 0; i < w; i++) b[i] = be ? p[w - 1 - i] : p[i];
    if (t == "i4") { int v; memcpy(&v, b, 4); return v; } if (t == "u4") { unsigned v; memcpy(&v, b, 4); return v; } if (t == "i8") { long v; memcpy(&v, b, 8); return v; } if (t == "u8") { unsigned long v; memcpy(&v, b, 8); return v; } if (t == "f4") { float v; memcpy(&v, b, 4); return v; } double v; memcpy(&v, b, 8); return v; }
static void simple() {   // read_simple
    static const std::vector<sizes_t> Q = {{4}, {1, 2}, {0, 3}, {2, 0, 1, 0}, {0, 0, 2}, {}}; const sizes_t &fs = mc_pick(Q); int nm = 1 + mc_choose(3); const char *dt = DT[mc_choose(4)]; int buf = mc_choose(3); mc_split();
    size_t N = total(fs); BigBlock bb; OK(big_file_create(&bf, "bf")); mc_wipe("bf"); big_file_set_buffer_size(4096);
    OK(big_file_create_block(&bf, &bb, "b", "<i4", nm, fs.size(), fs.data())); std::vector<int> v(N * nm); for (size_t i = 0; i < v.size(); i++) v[i] = 1000 * i + 7;
    if (N) OK(wr_at(&bb, 0, str((char *)v.data(), 4 * v.size()), "<i4", nm));
    OK(big_block_close(&bb)); OK(big_file_open_block(&bf, &bb, "b")); big_file_set_buffer_size((buf + 1) * 4 * nm + (buf == 1));
    for (size_t st = 0; st <= N; st++) for (size_t n = 0; n <= N + 3; n++) for (int own = 0; own < 2; own++) {
        const char *d = own ? dt : NULL; BigArray a; memset(&a, 0, sizeof a); int rt = big_block_read_simple(&bb, st, n, &a, d); mc_transitions(); mc_state(st * 100 + n + 10000 * fs.size());
        if (st == N && rt != 0) continue;     // not inside the block: either way
        MC_CHECK(rt == 0, "read_simple(%zu,%zu) of %zu failed: %s", st, n, N, errmsg());
        size_t e = std::min(n, N - st); MC_CHECK((size_t)a.dims[0] == e, "read_simple(%zu,%zu) of %zu gave %td rows", st, n, N, a.dims[0]);
        MC_CHECK(a.ndim == 2 && a.dims[1] == nm && a.size == e * nm, "read_simple gave an array of wrong shape");
        const char *ed = own ? dt : "<i4"; int w = width(ed); if (w == 0) w = atoi(ed + 1);
        MC_CHECK(big_file_dtype_itemsize(a.dtype) == w && big_file_dtype_kind(a.dtype) == big_file_dtype_kind(ed), "read_simple gave type %s instead of %s", a.dtype, ed);
        for (size_t i = 0; i < e * nm; i++) { double x = val(ed, (char *)a.data + i * w); MC_CHECK(x == v[st * nm + i], "read_simple(%zu,%zu,%s) element %zu is %g, expected %d", st, n, ed, i, x, v[st * nm + i]); }
        free(a.data);
    }
    OK(big_block_close(&bb)); OK(big_file_close(&bf));
}
static void huge() {
    static const std::vector<sizes_t> geo = {{(size_t)1 << 33}, {((size_t)1 << 31) + 3, 2, (size_t)1 << 32}, {5, 0, ((size_t)1 << 32) + 7, 1}}; const sizes_t &fs = mc_pick(geo); int nm = 1 + mc_choose(2); mc_split();
    size_t N = total(fs), rs = 4 * nm; BigBlock bb; OK(big_file_create(&bf, "bf")); mc_wipe("bf"); big_file_set_buffer_size(64); OK(big_file_create_block(&bf, &bb, "b", "<i4", nm, fs.size(), fs.data()));
    std::vector<size_t> at = {0, 1, ((size_t)1 << 31) - 1, (size_t)1 << 31, ((size_t)1 << 32) - 1, (size_t)1 << 32, N - 1}; size_t off = 0; for (auto f : fs) { if (off) at.push_back(off), at.push_back(off - 1); off += f; }
    BigBlockPtr p; memset(&p, 0, sizeof p); OK(big_block_seek(&bb, &p, 0)); size_t cur = 0; unsigned stamp = 0;
    for (int how = 0; how < 3; how++) for (size_t a : at) {
        if (a >= N) continue;
        int rt = how == 0 ? big_block_seek(&bb, &p, a) : how == 1 ? big_block_seek(&bb, &p, (ptrdiff_t)a - (ptrdiff_t)N) : big_block_seek_rel(&bb, &p, (ptrdiff_t)a - (ptrdiff_t)cur);
        MC_CHECK(rt == 0, "seeking to row %zu of %zu (way %d) failed: %s", a, N, how, errmsg()); MC_CHECK(!big_block_eof(&bb, &p), "end of block reported at row %zu of %zu", a, N);
        str b = rowpat(++stamp, a, rs); OK(wr(&bb, &p, b, "<i4", nm)); cur = a + 1; mc_state(a * 7 + how);
        MC_CHECK(!!big_block_eof(&bb, &p) == (cur == N), "end of block wrong after row %zu of %zu", a, N);
        size_t f = 0, r = a; while (r >= fs[f]) r -= fs[f++];
        str pn = "bf/b/" + fname(f); int fd = open(pn.c_str(), O_RDONLY); MC_CHECK(fd >= 0, "no file %s", pn.c_str()); str g(rs, 0); pread(fd, &g[0], rs, (off_t)r * rs); close(fd);
        MC_CHECK(g == b, "row %zu was not written at its place in file %zu", a, f);
        str two; BigBlockPtr q = p; rt = wr(&bb, &q, str((N - cur + 1 < 4 ? N - cur + 1 : 0) * rs, 'x'), "<i4", nm); MC_CHECK((N - cur + 1 < 4) == (rt != 0), "write past the end from row %zu of %zu returned %d", cur, N, rt);
    }
    for (size_t o : {N + 1, N + ((size_t)1 << 32)}) MC_CHECK(big_block_seek(&bb, &p, o) != 0, "seek to %zu of %zu succeeded", o, N);
    OK(big_block_seek(&bb, &p, N)); MC_CHECK(big_block_eof(&bb, &p), "no end of block at the end");
    OK(big_block_close(&bb)); OK(big_file_close(&bf));
}
static std::vector<sizes_t> P;
static void run() {
    struct T { const char *dt; int nm; }; static const std::vector<T> ts = {{"<i4", 1}, {"<f8", 2}, {"<S3", 1}};
    if (P.empty()) { parts(3, 3, P); for (auto f : {sizes_t{}, sizes_t{0}, sizes_t{0, 0}, sizes_t{4}, sizes_t{1, 0, 1}, sizes_t{0, 2, 0, 0, 1}, sizes_t{1}}) P.push_back(f); }
    int mode = mc_choose(4); if (mode == 0) return simple(); if (mode == 1) return huge();
    St s; int depth; size_t buf;
    if (mode == 2) { s.fs = mc_pick(P); const T &t = mc_pick(ts); s.dt = t.dt; s.nm = t.nm; s.rs = width(t.dt) * t.nm; buf = (1 + mc_choose(2) * 2) * s.rs; depth = mc_thorough() ? 3 : 2; }
    else { static const std::vector<sizes_t> Q = {{1, 2}, {0, 1, 0, 1, 0}, {3}}; s.fs = mc_pick(Q); s.dt = "<i4"; s.nm = 1; s.rs = 4; buf = 4 + mc_choose(2) * 4; depth = mc_thorough() ? 4 : 3; }
    int first = mc_choose(4 * total(s.fs) + 16, "op"); mc_split();
    seq(s, buf, depth, first);
}
int main(int c, char **v) { mc_track_module("libbf"); McOpts o; o.property = "C02"; o.run = run; return mc_main(c, v, o); }
