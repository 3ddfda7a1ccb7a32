// C03: the on-disk format, independent of the history; hand written blocks are read back.
#include "bf.h"
static BigFile bf;
struct T { const char *given, *norm; int nm; };
static const std::vector<T> TS = {{"i4", "<i4", 1}, {">f8", ">f8", 2}, {"=u8", "<u8", 1}, {"|S3", "<S3", 2}, {"<b1", "<b1", 3}, {">c8", ">c8", 1}, {"|b1", "<b1", 1}, {"a1", "<a1", 5}};
struct A { const char *name, *dt, *norm; int nm; str data; };
static std::vector<A> attrs_all() {
    std::vector<A> r; int i4[2] = {-7, 1 << 20}; double f8 = 3.25; r.push_back({"Zeta", "i4", "<i4", 2, str((char *)i4, 8)}); r.push_back({"alpha", "f8", "<f8", 1, str((char *)&f8, 8)}); r.push_back({"str", "S1", "<S1", 11, "hello world"});
    str be("\x00\x00\x01\x02", 4); r.push_back({"be", ">i4", ">i4", 1, be}); str longs; for (int i = 0; i < 300; i++) longs += (char)(i * 7 + 1); r.push_back({"long.name-with_chars", "|S1", "<S1", 300, longs}); r.push_back({"b", "b1", "<b1", 2, str("\1\0", 2)}); r.push_back({"wide", "<S5", "<S5", 2, str("abcdefghij")}); r.push_back({"pct%s%n", "u8", "<u8", 1, str("\xff\xff\xff\xff\xff\xff\xff\x7f")});
    return r;
}
static void check_attr_file(const str &t, std::vector<A> as, const char *ctx) {
    std::sort(as.begin(), as.end(), [](const A &a, const A &b) { return strcmp(a.name, b.name) < 0; }); size_t p = 0;
    for (auto &a : as) {
        str want = str(a.name) + " " + a.norm + " " + std::to_string(a.nm) + " " + hex(a.data) + " #HUMANE [ "; MC_CHECK(t.compare(p, want.size(), want) == 0, "%s: attr-v2 has '%s' where '%s' is expected", ctx, show(t.substr(p, want.size())).c_str(), show(want).c_str());
        size_t e = t.find(" ]\n", p); MC_CHECK(e != str::npos, "%s: attr-v2: no end of the text of %s", ctx, a.name);
        // the text may contain anything; find the end of this line by the start of the next one
        size_t nl = t.find('\n', p + want.size() - 2); MC_CHECK(nl != str::npos && t.compare(nl - 2, 3, " ]\n") == 0, "%s: attr-v2: line of %s is not closed", ctx, a.name); p = nl + 1;
    }
    MC_CHECK(p == t.size(), "%s: attr-v2 has extra bytes '%s'", ctx, show(t.substr(p)).c_str());
}
static str enc(const str &dt, unsigned stamp, size_t r, size_t rs) { return rowpat(stamp, r, rs); }
static void full(const char *ctx, const T &t, const sizes_t &fs, const sizes_t &wr_, const std::vector<str> &rows, const std::vector<A> &as) {   // check all bytes of the block
    size_t rs = width(t.norm) * t.nm, off = 0; std::vector<unsigned> sums; auto tr = tree("bf/g/b"); std::set<str> names = {"bf/g/b/header", "bf/g/b/attr-v2"};
    for (size_t f = 0; f < fs.size(); f++) { str want; size_t lastw = 0; for (size_t r = off; r < off + fs[f]; r++) { want += rows[r].empty() ? str(rs, 0) : rows[r]; if (!rows[r].empty()) lastw = r - off + 1; } str pn = "bf/g/b/" + fname(f); names.insert(pn); MC_CHECK(tr.count(pn), "%s: file %s is missing", ctx, pn.c_str());
        want.resize(lastw * rs); if (tr[pn].size() > want.size()) { str z = tr[pn].substr(want.size()); MC_CHECK(z.find_first_not_of('\0') == str::npos && tr[pn].size() <= fs[f] * rs, "%s: file %s has extra bytes", ctx, pn.c_str()); tr[pn].resize(want.size()); }
        if (tr[pn] != want) mc_fail("%s: file %s contains %s, expected %s", ctx, pn.c_str(), hex(tr[pn]).c_str(), hex(want).c_str()); sums.push_back(bytesum(want)); off += fs[f]; }
    for (auto &x : tr) MC_CHECK(names.count(x.first), "%s: unexpected file %s", ctx, x.first.c_str());
    str h = make_header(t.norm, t.nm, fs, sums); if (tr["bf/g/b/header"] != h) mc_fail("%s: header is '%s', expected '%s'", ctx, show(tr["bf/g/b/header"]).c_str(), show(h).c_str());
    MC_CHECK(tr.count("bf/g/b/attr-v2"), "%s: no attr-v2", ctx); check_attr_file(tr["bf/g/b/attr-v2"], as, ctx);
    mc_state(tree_hash(tr));
}
static void write_history() {
    static std::vector<sizes_t> P; if (P.empty()) { parts(4, 3, P); for (auto f : {sizes_t{}, sizes_t{0}, sizes_t{4}, sizes_t{1, 3}, sizes_t{0, 2, 0, 0, 2}}) P.push_back(f); }
    const sizes_t &fs = mc_pick(P); const T &t = mc_pick(TS); static const int bufr[] = {1, 2, 50}; int b = bufr[mc_choose(3)]; mc_split();
    size_t N = total(fs), rs = width(t.norm) * t.nm; int cut = N > 1 ? mc_choose(1 << (N - 1)) : 0;
    std::vector<std::pair<size_t, size_t>> seg; size_t s = 0; for (size_t i = 1; i <= N; i++) if (i == N || (cut >> (i - 1) & 1)) { seg.push_back({s, i}); s = i; }
    BigBlock bb; OK(big_file_create(&bf, "bf")); mc_wipe("bf"); big_file_set_buffer_size(b * rs); OK(big_file_create_block(&bf, &bb, "g/b", t.given, t.nm, fs.size(), fs.data()));
    std::vector<str> rows(N); auto all = attrs_all(); std::vector<A> as;
    static int order[8]; int skip = seg.size() > 1 ? mc_choose(2, "leave one out") : 0;   // also never written rows
    mc_note("%s x%d files %s buffer %d rows, cuts %x%s", t.given, t.nm, fmt_sizes(fs).c_str(), b, cut, skip ? " (last one unwritten)" : "");
    size_t ns = seg.size() - skip; std::vector<int> todo; for (size_t i = 0; i < ns; i++) todo.push_back(i);
    int between = mc_choose(4); int grown = 0; sizes_t fs2 = fs;
    for (size_t k = 0; k < ns; k++) {
        int j = mc_choose(todo.size(), "next"); auto sg = seg[todo[j]]; todo.erase(todo.begin() + j); str d; for (size_t r = sg.first; r < sg.second; r++) d += rows[r] = enc(t.norm, 3, r, rs);
        OK(wr_at(&bb, sg.first, d, t.norm, t.nm)); mc_note("write [%zu,%zu)", sg.first, sg.second);
        { const A &a = all[(k + fs.size() + cut) % all.size()]; bool have = false; for (auto &x : as) have |= !strcmp(x.name, a.name); Buf v(a.data); OK(big_block_set_attr(&bb, a.name, v.p, a.dt, a.nm)); if (!have) as.push_back(a); }
        if (between == 1) OK(big_block_flush(&bb)); if (between == 2) { OK(big_block_close(&bb)); OK(big_file_open_block(&bf, &bb, "g/b")); }
        if (between == 3 && !grown) { size_t g[2] = {1, 0}; OK(big_block_grow(&bb, 2, g)); fs2.push_back(1); fs2.push_back(0); rows.resize(N + 1); grown = 1; }
    }
    OK(big_block_close(&bb)); full("after close", t, fs2, fs2, rows, as);
    OK(big_file_open_block(&bf, &bb, "g/b")); OK(big_block_flush(&bb)); OK(big_block_close(&bb)); full("after opening and closing", t, fs2, fs2, rows, as);
    // all attributes on an existing block, one after the other
    OK(big_file_open_block(&bf, &bb, "g/b")); for (auto &a : all) { Buf v(a.data); OK(big_block_set_attr(&bb, a.name, v.p, a.dt, a.nm)); } OK(big_block_close(&bb)); full("after setting attributes", t, fs2, fs2, rows, all);
    OK(big_file_close(&bf));
}
static void many() {   // hexadecimal names of six digits
    int nf = std::vector<int>{16, 17, 300}[mc_choose(3)]; mc_split(); sizes_t fs(nf, 1); BigBlock bb; OK(big_file_create(&bf, "bf")); mc_wipe("bf"); big_file_set_buffer_size(4); OK(big_file_create_block(&bf, &bb, "g/b", "<i4", 1, nf, fs.data()));
    std::vector<str> rows(nf); str d; for (int r = 0; r < nf; r++) d += rows[r] = rowpat(2, r, 4); OK(wr_at(&bb, 0, d, "<i4", 1)); OK(big_block_close(&bb)); full("many files", {"<i4", "<i4", 1}, fs, fs, rows, {});
    // sums at which the reduction carries once, twice, or not at all
    if (nf == 16) for (unsigned s : {0xffffu, 0x10000u, 0x1fffeu, 0x1ffffu, 0x20000u, 0x2fffdu, 0x2fffeu, 0x30000u, 0x5fffbu}) { size_t n = s / 255 + 1; sizes_t f1 = {n}; str v(n, '\xff'); v[n - 1] = (char)(s % 255); OK(big_file_create_block(&bf, &bb, "g/b", "<b1", 1, 1, f1.data())); OK(wr_at(&bb, 0, v, "<b1", 1)); OK(big_block_close(&bb)); std::vector<str> rr; for (char c : v) rr.push_back(str(1, c)); full(sprintfs("byte sum %#x", s).c_str(), {"<b1", "<b1", 1}, f1, f1, rr, {}); mc_transitions(3); }
    // big row counts
    size_t big[2] = {(size_t)5000000000, 3}; OK(big_file_create_block(&bf, &bb, "g/c", "<i4", 1, 2, big)); OK(big_block_close(&bb)); MC_CHECK(slurp("bf/g/c/header") == make_header("<i4", 1, {(size_t)5000000000, 3}, {0, 0}), "header of a block with 5e9 rows is '%s'", show(slurp("bf/g/c/header")).c_str());
    OK(big_file_close(&bf));
}
static void verify_read(const char *ctx, const T &t, const sizes_t &fs, const std::vector<str> &rows, const std::vector<A> &as, const std::vector<unsigned> &sums) {
    BigBlock bb; int rt = big_file_open_block(&bf, &bb, "g/b"); MC_CHECK(rt == 0, "%s: a hand written block was refused: %s", ctx, errmsg()); size_t N = total(fs), rs = width(t.norm) * t.nm;
    MC_CHECK(bb.size == N && bb.nmemb == t.nm && !strcmp(bb.dtype, t.norm) && bb.Nfile == (int)fs.size(), "%s: hand written block has size %zu nmemb %d dtype %s", ctx, bb.size, bb.nmemb, bb.dtype);
    for (size_t f = 0; f < fs.size(); f++) MC_CHECK(bb.fsize[f] == fs[f] && bb.fchecksum[f] == sums[f], "%s: file %zu: %zu rows checksum %u", ctx, f, bb.fsize[f], bb.fchecksum[f]);
    str g, w; for (auto &r : rows) w += r; OK(rd_at(&bb, 0, N, g, t.norm, t.nm)); MC_CHECK(g == w, "%s: hand written block reads %s, expected %s", ctx, hex(g).c_str(), hex(w).c_str());
    size_t cnt; BigAttr *l = big_block_list_attrs(&bb, &cnt); MC_CHECK(cnt == as.size(), "%s: %zu attributes, expected %zu", ctx, cnt, as.size());
    for (auto &a : as) { BigAttr *x = big_block_lookup_attr(&bb, a.name); MC_CHECK(x && x->nmemb == a.nm && !strcmp(x->dtype, a.norm) && !memcmp(x->data, a.data.data(), a.data.size()), "%s: attribute %s is wrong", ctx, a.name); }
    (void)l; OK(big_block_close(&bb)); mc_transitions(3); mc_state(mc_hash_str(w + t.norm, N));
}
static void by_hand() {
    static const std::vector<sizes_t> P = {{}, {0}, {3}, {1, 2}, {0, 2, 0, 1}, {1, 1, 1}}; const sizes_t &fs = mc_pick(P); static const std::vector<T> ts = {{"<i4", "<i4", 1}, {">f8", ">f8", 2}, {"<S3", "<S3", 2}, {">u2", ">u2", 1}, {"<i1", "<i1", 3}, {">c16", ">c16", 1}, {"<S16", "<S16", 1}}; const T &t = mc_pick(ts); int kind = mc_choose(4), bufr = 1 + mc_choose(2); mc_split();
    size_t N = total(fs), rs = width(t.norm) * t.nm, off = 0; mc_wipe("."); mkdirs("bf/g/b"); std::vector<str> rows(N); std::vector<unsigned> sums;
    for (size_t r = 0; r < N; r++) rows[r] = rowpat(8, r, rs); for (size_t f = 0; f < fs.size(); f++) { str d; for (size_t r = off; r < off + fs[f]; r++) d += rows[r]; off += fs[f]; put("bf/g/b/" + fname(f), d); sums.push_back(bytesum(d)); }
    put("bf/g/b/header", make_header(t.norm, t.nm, fs, sums)); auto all = attrs_all(); std::vector<A> as; str v1, v2;
    for (size_t k = 0; k < all.size(); k++) { A &a = all[k]; bool in1 = kind == 1 || (kind == 3 && k % 2 == 0), in2 = kind == 2 || (kind == 3 && k % 3 != 0); if (in1 || in2) as.push_back(a);
        if (in1) { int n = a.nm, l = strlen(a.name); char dt[8] = {0}; strcpy(dt, a.norm); str data = a.data; if (in2) std::reverse(data.begin(), data.end()); v1 += str((char *)&n, 4) + str((char *)&l, 4) + str(dt, 8) + a.name + data; }
        if (in2) v2 += str(a.name) + " " + a.norm + " " + std::to_string(a.nm) + " " + hex(a.data) + " #HUMANE [ whatever text ]\n"; }
    if (kind & 1) put("bf/g/b/attr", v1); if (kind & 2) put("bf/g/b/attr-v2", v2);
    OK(big_file_open(&bf, "bf")); big_file_set_buffer_size(bufr * rs + 1); str ctx = sprintfs("%s x%d %s attributes kind %d", t.norm, t.nm, fmt_sizes(fs).c_str(), kind); mc_note("%s", ctx.c_str());
    verify_read(ctx.c_str(), t, fs, rows, as, sums);
    // a header written by hand may list its files in any order
    if (fs.size() > 1) { str h = make_header(t.norm, t.nm, fs, sums); size_t p = h.find("000000:"); std::vector<str> ls; size_t q = p; while (q < h.size()) { size_t e = h.find('\n', q) + 1; ls.push_back(h.substr(q, e - q)); q = e; } std::reverse(ls.begin(), ls.end()); str h2 = h.substr(0, p); for (auto &l : ls) h2 += l; put("bf/g/b/header", h2); verify_read((ctx + " (files listed backwards)").c_str(), t, fs, rows, as, sums); }
    // changing one attribute keeps all others, from either file
    if (kind) { BigBlock bb; OK(big_file_open_block(&bf, &bb, "g/b")); int v = 5; OK(big_block_set_attr(&bb, "new", &v, "<i4", 1)); OK(big_block_close(&bb)); as.push_back({"new", "<i4", "<i4", 1, str((char *)&v, 4)}); verify_read((ctx + " after adding an attribute").c_str(), t, fs, rows, as, sums); }
    OK(big_file_close(&bf));
}
static void run() { switch (mc_choose(3)) { case 0: return write_history(); case 1: return many(); default: return by_hand(); } }
int main(int c, char **v) { mc_track_module("libbf"); McOpts o; o.property = "C03"; o.run = run; return mc_main(c, v, o); }
