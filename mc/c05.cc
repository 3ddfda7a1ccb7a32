// C05: strided arrays.
#include "bf.h"
static BigFile bf;
typedef std::vector<ptrdiff_t> pd;
struct Desc { sizes_t dims; pd strides; bool nullstr = false; };    // strides in bytes
// offsets of the elements in row-major order
static std::vector<ptrdiff_t> offs(const Desc &d) {
    std::vector<ptrdiff_t> o; size_t n = 1; for (auto x : d.dims) n *= x;
    for (size_t k = 0; k < n; k++) { size_t r = k; ptrdiff_t a = 0; for (int i = (int)d.dims.size() - 1; i >= 0; i--) { a += (ptrdiff_t)(r % d.dims[i]) * d.strides[i]; r /= d.dims[i]; } o.push_back(a); }
    return o;
}
static str elem(unsigned k, int w, const char *dt) {   // small integers so that every conversion is exact
    double v = (int)(k * 37 + 11); bool be = dt[0] == '>'; char b[16]; const char *t = dt + 1;
    if (!strcmp(t, "i4")) { int x = v; memcpy(b, &x, 4); } else if (!strcmp(t, "u4")) { unsigned x = v; memcpy(b, &x, 4); } else if (!strcmp(t, "i8")) { long x = v; memcpy(b, &x, 8); } else if (!strcmp(t, "f8")) { memcpy(b, &v, 8); } else if (!strcmp(t, "f4")) { float x = v; memcpy(b, &x, 4); }
    else for (int i = 0; i < w; i++) b[i] = pat(k, i, 3);
    if (be && t[0] != 'S') std::reverse(b, b + w); return str(b, w);
}
static void check(const Desc &d, const char *adt, const char *bdt, int nm, const sizes_t &fs, size_t bufbytes, size_t at) {
    int aw = width(adt), bw = width(bdt); auto off = offs(d); size_t ne = off.size(); size_t nr = ne / nm; size_t N = total(fs);
    ptrdiff_t lo = 0, hi = aw; for (auto o : off) lo = std::min(lo, o), hi = std::max(hi, o + aw);
    size_t span = hi - lo; bool bcast = false; { std::set<ptrdiff_t> s(off.begin(), off.end()); bcast = s.size() != ne; }
    str src(span, 0); for (size_t i = 0; i < span; i++) src[i] = pat(99, i, 0);
    std::vector<unsigned> num(ne); { std::map<ptrdiff_t, unsigned> m; for (size_t k = 0; k < ne; k++) { if (!m.count(off[k])) { m[off[k]] = k; src.replace(off[k] - lo, aw, elem(k, aw, adt)); } num[k] = m[off[k]]; } }
    str ds = "dims ["; for (auto x : d.dims) ds += std::to_string(x) + " "; ds += "] strides ["; for (auto x : d.strides) ds += std::to_string(x) + " "; ds += "]" + str(d.nullstr ? " (default)" : "");
    ds = sprintfs("array %s %s, block %s nmemb %d files %s buffer %zu at row %zu", adt, ds.c_str(), bdt, nm, fmt_sizes(fs).c_str(), bufbytes, at);
    mc_note("%s", ds.c_str());
    BigBlock bb; OK(big_file_create(&bf, "bf")); big_file_set_buffer_size(4096);
    OK(big_file_create_block(&bf, &bb, "b", bdt, nm, fs.size(), fs.data())); str old; for (size_t r = 0; r < N; r++) old += rowpat(5, r, bw * nm);
    OK(wr_at(&bb, 0, old, bdt, nm)); big_file_set_buffer_size(bufbytes);
    str want = old; for (size_t k = 0; k < ne; k++) want.replace((at * nm + k) * bw, bw, elem(num[k], bw, bdt));
    Buf a(src); BigArray ar; ptrdiff_t dummy[32] = {0};
    sizes_t dims = d.dims; dims.resize(32); pd st = d.strides; st.resize(32);
    OK(big_array_init(&ar, a.p - lo, adt, d.dims.size(), dims.data(), d.nullstr ? NULL : st.data())); (void)dummy;
    MC_CHECK(ar.size == ne, "%s: size is %zu", ds.c_str(), ar.size);
    BigBlockPtr p; memset(&p, 0, sizeof p); OK(big_block_seek(&bb, &p, at)); int rt = big_block_write(&bb, &p, &ar); mc_transitions();
    MC_CHECK(rt == 0, "%s: write failed: %s", ds.c_str(), errmsg());
    MC_CHECK(a.s() == src, "%s: write changed the caller's array", ds.c_str());
    OK(big_block_flush(&bb)); str raw; for (size_t f = 0; f < fs.size(); f++) raw += slurp("bf/b/" + fname(f));
    if (raw != want) mc_fail("%s: stored %s, expected %s", ds.c_str(), hex(raw).c_str(), hex(want).c_str());
    mc_state(mc_hash_str(raw, mc_hash(off.data(), off.size() * 8)));
    if (!bcast) {   // read it back into the same places of another array
        str g(span, 0); for (size_t i = 0; i < span; i++) g[i] = pat(55, i, 1);
        Buf b(g); OK(big_array_init(&ar, b.p - lo, adt, d.dims.size(), dims.data(), d.nullstr ? NULL : st.data()));
        OK(big_block_seek(&bb, &p, at)); rt = big_block_read(&bb, &p, &ar); mc_transitions(); MC_CHECK(rt == 0, "%s: read failed: %s", ds.c_str(), errmsg());
        for (size_t k = 0; k < ne; k++) g.replace(off[k] - lo, aw, elem(num[k], aw, adt));
        if (b.s() != g) mc_fail("%s: read gave %s, expected %s", ds.c_str(), hex(b.s()).c_str(), hex(g).c_str());
    }
    OK(big_block_close(&bb)); OK(big_file_close(&bf));
}
// identity, then every transposition with the first axis' predecessor order rotated: nd rotations and the reversal
static bool next_few(std::vector<int> &p) { int n = p.size(); bool rev = p[0] > p[n - 1] && p[1] == p[0] - 1; if (rev) return false; std::rotate(p.begin(), p.begin() + 1, p.end()); if (p[0] == 0) std::reverse(p.begin(), p.end()); return true; }
// memory layouts of a shape: order of the axes x sign x padding x broadcast
static void layouts(const sizes_t &dims, int w, std::vector<Desc> &out, bool few) {
    int nd = dims.size(); std::vector<int> perm(nd); for (int i = 0; i < nd; i++) perm[i] = i;
    { Desc d; d.dims = dims; d.nullstr = true; d.strides.resize(nd); ptrdiff_t s = w; for (int i = nd - 1; i >= 0; i--) { d.strides[i] = s; s *= dims[i]; } out.push_back(d); }
    do for (int neg = 0; neg < (1 << nd); neg++) if (!few || neg == 0 || neg == (1 << nd) - 1 || __builtin_popcount(neg) == 1) for (int pad = 0; pad < (few ? 2 : 1 << nd); pad++) {
        Desc d; d.dims = dims; d.strides.resize(nd); ptrdiff_t s = w;
        for (int k = nd - 1; k >= 0; k--) { int ax = perm[k]; if (pad >> k & 1) s += w * (k == nd - 1 ? 1 : 2); d.strides[ax] = neg >> ax & 1 ? -s : s; s *= dims[ax]; }
        out.push_back(d);
    } while (few && !mc_thorough() ? next_few(perm) : std::next_permutation(perm.begin(), perm.end()));
    for (int b = 1; b < (1 << nd); b++) { Desc d; d.dims = dims; d.strides.resize(nd); ptrdiff_t s = w; for (int i = nd - 1; i >= 0; i--) { if (b >> i & 1) d.strides[i] = 0; else { d.strides[i] = s; s *= dims[i]; } } out.push_back(d); }
}
static void run() {
    int mode = mc_choose(4);
    struct C { const char *a, *b; }; static const std::vector<C> cs = {{"<i4", "<i4"}, {">i4", "<i4"}, {"<i4", ">f8"}, {">f8", "<f4"}, {"<f4", "<i8"}, {"<S3", "<S3"}, {">i8", ">i8"}};
    if (mode == 0) {   // 2-d: rows x members, every layout, partition and buffer
        const C &c = mc_pick(cs); int nm = 1 + mc_choose(3); size_t nr = 1 + mc_choose(4); static const std::vector<sizes_t> P = {{5}, {1, 4}, {2, 0, 3}, {0, 1, 1, 1, 2}}; const sizes_t &fs = mc_pick(P); int bsz = mc_choose(3); mc_split();
        std::vector<Desc> L; layouts({nr, (size_t)nm}, width(c.a), L, false); const Desc &d = mc_pick(L); size_t at = mc_choose(2) ? 5 - nr : 0;
        size_t rs = width(c.b) * nm; check(d, c.a, c.b, nm, fs, bsz == 0 ? rs : bsz == 1 ? 3 * rs - 1 : 4096, at);
    } else if (mode == 1) {   // any other number of dimensions
        static const std::vector<sizes_t> D = {{6}, {1}, {2, 3, 2}, {1, 4, 3}, {3, 1, 2}, {2, 2, 1}, {2, 2, 3, 1}, {2, 1, 2, 1, 3}}; const sizes_t &dims = mc_pick(D); const C &c = mc_pick(cs); size_t ne = 1; for (auto x : dims) ne *= x;
        std::vector<int> nms; for (int k : {1, 2, 3}) if (ne % k == 0) nms.push_back(k); int nm = mc_pick(nms); int split = mc_choose(2), bsz = mc_choose(2); mc_split();
        std::vector<Desc> L; layouts(dims, width(c.a), L, dims.size() > 3); const Desc &d = mc_pick(L);
        size_t N = ne / nm + 2; check(d, c.a, c.b, nm, split ? sizes_t{N / 2, 0, N - N / 2} : sizes_t{N}, bsz ? 4096 : 2 * width(c.b) * nm + 1, 1);
    } else if (mode == 2) {   // no dimension at all (a scalar), the maximal number, size one dimensions with odd strides
        const C &c = mc_pick(cs); int k = mc_choose(6), bsz = mc_choose(2); mc_split(); Desc d; int w = width(c.a);
        if (k == 0) { d.nullstr = true; } else if (k == 1) {} else if (k == 2) { d.dims.assign(32, 1); d.strides.assign(32, w); d.dims[30] = 3; d.strides[30] = 2 * w; } else if (k == 3) { d.dims.assign(32, 1); d.dims[0] = 2; d.dims[31] = 2; d.nullstr = true; d.strides.assign(32, 2 * w); d.strides[31] = w; }
        else if (k == 4) { d.dims = {3, 1}; d.strides = {w, 77}; } else { d.dims = {1, 3}; d.strides = {-5000, w}; }
        check(d, c.a, c.b, 1, {3, 2}, bsz ? 4096 : width(c.b), 1);
    } else {                  // more than one internal conversion buffer
        const C &c = mc_pick(cs); int k = mc_choose(4); int bsz = mc_choose(2); mc_split(); int w = width(c.a); Desc d; d.dims = {5000, 2};
        if (k == 0) { d.strides = {2 * w, w}; d.nullstr = true; } else if (k == 1) d.strides = {w, 5000 * w}; else if (k == 2) d.strides = {-3 * w, w}; else d.strides = {0, w};
        check(d, c.a, c.b, 2, {4097, 1000}, bsz ? 1 << 20 : 8195, 7);
    }
}
int main(int c, char **v) { mc_track_module("libbf"); McOpts o; o.property = "C05"; o.run = run; return mc_main(c, v, o); }
