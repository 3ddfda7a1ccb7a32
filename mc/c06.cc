// C06: recorded checksums equal the byte sums of the data files.
#include "bf.h"
static BigFile bf;
struct T { const char *bd, *ad; int nm; };    // block type, array type
static const std::vector<T> TS = {{"<i4", "<i4", 1}, {">i8", "<i4", 2}, {"<f4", ">f8", 1}, {">f4", ">f4", 3}, {"<S3", "<S3", 1}, {"<b1", "<b1", 5}};
static str adata(const T &t, size_t r0, size_t n) {
    str s; const char *x = t.ad; int w = width(x); for (size_t k = 0; k < n * t.nm; k++) { str e; if (x[1] == 'i') { int v = -1000003 * (int)(k + r0 * t.nm) - 5; e.assign((char *)&v, 4); } else if (x[1] == 'f' && w == 8) { double v = (k + r0 * 7) * -1.375 + 0.1; e.assign((char *)&v, 8); } else if (x[1] == 'f') { float v = (k + r0 * 7) * 77.7f - 3; e.assign((char *)&v, 4); } else e = str(w, (char)(200 + k + r0)); if (x[0] == '>') std::reverse(e.begin(), e.end()); s += e; }
    return s;
}
static void verify(BigBlock *bb, const sizes_t &fs, bool flushed, const char *ctx, const char *bd, int nm) {
    MC_CHECK(bb->Nfile == (int)fs.size(), "%s: %d files", ctx, bb->Nfile); Header h; str raw = slurp("bf/b/header"); MC_CHECK(parse_header(raw, h), "%s: header '%s' is malformed", ctx, show(raw).c_str());
    for (size_t f = 0; f < fs.size(); f++) { unsigned s = bytesum(slurp("bf/b/" + fname(f))); MC_CHECK(bb->fchecksum[f] == s, "%s: checksum of file %zu is %u, the sum of its bytes is %u", ctx, f, bb->fchecksum[f], s);
        if (flushed) { MC_CHECK(f < h.sum.size() && h.sum[f] == s, "%s: header records checksum %u of file %zu, the sum of its bytes is %u", ctx, f < h.sum.size() ? h.sum[f] : 0, f, s); MC_CHECK(h.sysv[f] == sysv(s), "%s: header records reduced checksum %u for %u, expected %u", ctx, h.sysv[f], s, sysv(s)); } }
    if (flushed) MC_CHECK(h.nfile == (int)fs.size(), "%s: header has %d files, expected %zu", ctx, h.nfile, fs.size());
    uint64_t x = mc_hash_str(raw); mc_state(x);
}
static void hist(const sizes_t &fs0, const T &t, int b, int depth, int first) {
    sizes_t fs = fs0; size_t bw = width(t.bd) * t.nm; BigBlock bb; OK(big_file_create(&bf, "bf")); mc_wipe("bf"); big_file_set_buffer_size(b * bw); OK(big_file_create_block(&bf, &bb, "b", t.bd, t.nm, fs.size(), fs.data())); verify(&bb, fs, true, "create", t.bd, t.nm);
    std::vector<char> done(total(fs), 0); mc_note("block %s array %s nmemb %d files %s buffer %d rows", t.bd, t.ad, t.nm, fmt_sizes(fs).c_str(), b);
    for (int d = 0; d < depth; d++) {
        size_t N = done.size(); std::vector<std::pair<size_t, size_t>> iv; for (size_t i = 0; i < N; i++) for (size_t j = i + 1; j <= N && !done[j - 1]; j++) iv.push_back({i, j});
        // writes of rows not yet written; the rest: flush, re-open, grow, refused writes, empty write
        int n = iv.size() + 7; int op = d == 0 && first < n ? first : mc_choose(n, "op"); bool flushed = false; str ctx;
        if (op < (int)iv.size()) { auto v = iv[op]; ctx = sprintfs("write [%zu,%zu)", v.first, v.second); for (size_t r = v.first; r < v.second; r++) done[r] = 1; OK(wr_at(&bb, v.first, adata(t, v.first, v.second - v.first), t.ad, t.nm)); }
        else switch (op - iv.size()) {
            case 0: ctx = "flush"; OK(big_block_flush(&bb)); flushed = true; break;
            case 1: ctx = "close, open"; OK(big_block_close(&bb)); OK(big_file_open_block(&bf, &bb, "b")); flushed = true; break;
            case 2: { ctx = "grow"; size_t g[3] = {0, 2, 1}; OK(big_block_grow(&bb, 3, g)); fs.insert(fs.end(), g, g + 3); done.resize(N + 3, 0); break; }
            case 3: ctx = "write past the end"; MC_CHECK(wr_at(&bb, N ? N - 1 : 0, adata(t, 0, 2), t.ad, t.nm) != 0, "a write past the end succeeded"); break;
            case 4: ctx = "unsupported conversion"; if (N) MC_CHECK(wr_at(&bb, 0, str(16 * t.nm, 'z'), "<c16", t.nm) != 0, "an unsupported conversion succeeded"); break;
            case 5: ctx = "empty write"; OK(wr_at(&bb, 0, "", t.ad, t.nm)); break;
            case 6: { ctx = "grow by no files"; size_t g[1] = {1}; OK(big_block_grow(&bb, 0, g)); break; } }
        mc_note("%s", ctx.c_str()); verify(&bb, fs, flushed, ctx.c_str(), t.bd, t.nm);
    }
    OK(big_block_flush(&bb)); verify(&bb, fs, true, "final flush", t.bd, t.nm); OK(big_block_close(&bb)); OK(big_file_open_block(&bf, &bb, "b")); verify(&bb, fs, true, "re-open", t.bd, t.nm); OK(big_block_close(&bb)); OK(big_file_close(&bf));
}
static void bigsum() {   // sums above 2^16, 2^31 and 2^32; strided input; many buffers
    static const size_t ns[] = {300, 70000, 9000000, 17500000}; size_t n = ns[mc_choose(4)]; int k = mc_choose(3); mc_split(); BigBlock bb; OK(big_file_create(&bf, "bf")); mc_wipe("bf"); big_file_set_buffer_size(k == 0 ? n : k == 1 ? n / 3 + 1 : 1 << 20); sizes_t fs = {n, 0, n / 2}; OK(big_file_create_block(&bf, &bb, "b", "<S1", 1, 3, fs.data()));
    mc_note("%zu bytes of FF", n); OK(wr_at(&bb, 0, str(n + n / 2, '\xff'), "<S1", 1)); OK(big_block_flush(&bb)); verify(&bb, fs, true, "large", "<S1", 1); OK(big_block_close(&bb)); OK(big_file_open_block(&bf, &bb, "b")); verify(&bb, fs, true, "large re-opened", "<S1", 1); OK(big_block_close(&bb)); OK(big_file_close(&bf)); mc_wipe("bf");
}
static void run() {
    static std::vector<sizes_t> P; if (P.empty()) { parts(3, 3, P); for (auto f : {sizes_t{}, sizes_t{4}, sizes_t{0, 2, 0, 0, 1}, sizes_t{1, 3}}) P.push_back(f); }
    int mode = mc_choose(3); if (mode == 0) return bigsum();
    if (mode == 1) { const sizes_t &fs = mc_pick(P); const T &t = mc_pick(TS); int b = std::vector<int>{1, 2, 50}[mc_choose(3)]; int f = mc_choose(17); mc_split(); size_t N = total(fs); if (f >= (int)(N * (N + 1) / 2 + 7)) return; hist(fs, t, b, mc_thorough() ? 4 : 3, f); }
    else { static const std::vector<sizes_t> Q = {{1, 2}, {3}}; const sizes_t &fs = mc_pick(Q); int b = 1 + mc_choose(2); int f = mc_choose(13), g = mc_choose(2); mc_split(); hist(fs, TS[g], b, mc_thorough() ? 5 : 4, f); }
}
int main(int c, char **v) { mc_track_module("libbf"); McOpts o; o.property = "C06"; o.run = run; return mc_main(c, v, o); }
