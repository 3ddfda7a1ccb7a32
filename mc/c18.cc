// C18: record operations against the same operations on the single columns, in a second file.
#include "bf.h"
static BigFile rf, cf;     // written by records / by columns
struct F { const char *dt; int nm; };
static const std::vector<F> FS = {{"<i4", 1}, {">f8", 2}, {"u2", 3}, {"|S3", 1}, {"<b1", 1}, {"c8", 1}, {"<S1", 5}};
static const char *NAMES[] = {"x", "g/y", "g/x", "Mass", "g/h/z"};
static str norm(const char *dt) { str s = dt; if (!strchr("<>=|", s[0])) s = "<" + s; if (s[0] == '=' || s[0] == '|') s[0] = '<'; return s; }
struct RT { BigRecordType t; std::vector<F> f; std::vector<str> name; std::vector<size_t> off; size_t item = 0; RT() { memset(&t, 0, sizeof t); } ~RT() { big_record_type_clear(&t); } size_t w(int i) const { return width(norm(f[i].dt)) * f[i].nm; } };
static void build(RT &r, const std::vector<int> &k, int how) {    // how: add in order; set backwards; set with a field replaced
    int n = k.size(); for (int i = 0; i < n; i++) { r.f.push_back(FS[k[i]]); r.name.push_back(i < 5 ? NAMES[i] : "n" + std::to_string(i)); }
    for (int j = 0; j < n; j++) { int i = how == 1 ? n - 1 - j : j; if (how == 0) { int at = big_record_type_add(&r.t, r.name[i].c_str(), r.f[i].dt, r.f[i].nm); MC_CHECK(at == i, "field %d was added as %d", i, at); } else { if (how == 2) big_record_type_set(&r.t, i, "other", "<f4", 9); big_record_type_set(&r.t, i, r.name[i].c_str(), r.f[i].dt, r.f[i].nm); } }
    big_record_type_complete(&r.t); MC_CHECK((int)r.t.nfield == n, "the type has %zu fields, expected %d", (size_t)r.t.nfield, n);
    for (int i = 0; i < n; i++) { r.off.push_back(r.item); r.item += r.w(i); auto &g = r.t.fields[i]; MC_CHECK((size_t)g.offset == r.off[i] && g.nmemb == r.f[i].nm && g.elsize == width(norm(r.f[i].dt)) && r.name[i] == g.name, "field %d is '%s' at %d, %d x %d bytes; expected '%s' at %zu, %d x %d", i, g.name, g.offset, g.nmemb, g.elsize, r.name[i].c_str(), r.off[i], r.f[i].nm, width(norm(r.f[i].dt))); }
    MC_CHECK(r.t.itemsize == r.item, "a record has %zu bytes, its fields have %zu", (size_t)r.t.itemsize, r.item); mc_transitions(n);
}
static str fieldval(const RT &r, int c, size_t row, int stamp) { str e; F f = r.f[c]; str dt = norm(f.dt); for (int m = 0; m < f.nm; m++) { int w = width(dt); str v = rowpat(stamp * 31 + c, row * 7 + m, w); if (dt[1] == 'f') { double d = (int)(row * 10 + m + stamp) - 4.5; v.assign((char *)&d, 8); } if (dt[1] == 'c') { float q[2] = {(float)row + m, -1.5f * stamp}; v.assign((char *)q, 8); } if (dt[0] == '>') std::reverse(v.begin(), v.end()); e += v; } return e; }
static str recs(const RT &r, size_t r0, size_t n, int stamp) { str s; for (size_t i = 0; i < n; i++) for (size_t c = 0; c < r.f.size(); c++) s += fieldval(r, c, r0 + i, stamp); return s; }
static str col(const RT &r, int c, const str &recs) { str s; for (size_t p = 0; p < recs.size(); p += r.item) s += recs.substr(p + r.off[c], r.w(c)); return s; }
static void same(const char *ctx) { auto a = tree("rf"), b = tree("cf"); std::map<str, str> m; for (auto &x : a) m["cf" + x.first.substr(2)] = x.second; if (m != b) for (auto &x : m) MC_CHECK(b.count(x.first) && b[x.first] == x.second, "%s: %s is '%s' after the record operation, '%s' after the column operations", ctx, x.first.substr(3).c_str(), show(x.second).c_str(), b.count(x.first) ? show(b[x.first]).c_str() : "(missing)"); for (auto &x : b) MC_CHECK(m.count(x.first), "%s: %s is missing after the record operation", ctx, x.first.substr(3).c_str()); mc_state(tree_hash(m)); }
static void others(const char *root) { BigFile f; OK(big_file_create(&f, root)); BigBlock b; size_t fs[2] = {1, 2}; OK(big_file_create_block(&f, &b, "g/other", "<i4", 1, 2, fs)); OK(wr_at(&b, 0, "abcdefghijkl", "<i4", 1)); OK(big_block_set_attr(&b, "keep", "me", "S1", 2)); OK(big_block_close(&b)); OK(big_file_close(&f)); }
static const std::vector<sizes_t> LAY = {{2}, {1, 2}, {0, 2, 0}, {}}, GROW = {{1}, {0, 2}, {}, {0}};
struct Op { int kind; size_t a, b; };   // create LAY[a], append GROW[a], write / read b rows at a
static void hist(const std::vector<int> &kinds, int how, int depth, int bufb, int cast, bool few = false) {
    mc_wipe("rf"); mc_wipe("cf"); big_file_set_buffer_size(bufb); RT r; build(r, kinds, how); others("rf"); others("cf"); OK(big_file_open(&rf, "rf")); OK(big_file_open(&cf, "cf")); int n = r.f.size(); size_t rows = 0; bool made = false;
    if (cast) {   // the columns exist already with other types: the values are converted as for a column
        for (const char *root : {"rf", "cf"}) { BigFile f; OK(big_file_open(&f, root)); for (int c = 0; c < n; c++) { str d = norm(r.f[c].dt), o = d == "<i4" ? ">i8" : d == ">f8" ? "<f4" : d == "<c8" ? ">c16" : d; BigBlock b; size_t fs[2] = {1, 2}; OK(big_file_create_block(&f, &b, r.name[c].c_str(), o.c_str(), r.f[c].nm, 2, fs)); OK(big_block_set_attr(&b, "a", "v", "S1", 1)); OK(big_block_close(&b)); } OK(big_file_close(&f)); } rows = 3; made = true; }
    std::vector<str> content(rows);     // empty: never written
    auto column = [&](int c, auto f) { BigBlock b; int rt = big_file_open_block(&cf, &b, r.name[c].c_str()); if (rt) return rt; rt = f(&b); int rc = big_block_close(&b); return rt ? rt : rc; };
    for (int d = 0; d < depth; d++) {
        std::vector<Op> ops; if (!cast) for (size_t i = 0; i < LAY.size(); i++) ops.push_back({0, i, 0}); for (size_t i = 0; i < GROW.size(); i++) ops.push_back({1, i, 0});
        for (size_t i = 0; i <= rows; i++) for (size_t j = i; j <= rows + 1; j++) if (j > i || i == 0 || i == rows) { ops.push_back({2, i, j - i}); ops.push_back({3, i, j - i}); }
        if (few) { std::vector<Op> o; for (auto &x : ops) if (x.kind == 0 ? x.a == 1 : x.kind == 1 ? x.a == 1 : x.kind == 3 ? x.a == 0 && x.b == rows : (x.b && x.a + x.b == rows) || (x.b == rows + 1 && x.a == 0)) o.push_back(x); ops = o; }
        const Op op = ops[mc_choose(ops.size(), "op")]; str ctx; int stamp = d + 1, rt = 0, wt = 0;
        if (op.kind == 0) { const sizes_t &fs = LAY[op.a]; ctx = "create " + fmt_sizes(fs); mc_note("%s", ctx.c_str()); rt = big_file_create_records(&rf, &r.t, "w+", fs.size(), fs.data()); for (int c = 0; c < n && !wt; c++) { BigBlock b; wt = big_file_create_block(&cf, &b, r.name[c].c_str(), r.f[c].dt, r.f[c].nm, fs.size(), fs.data()); if (!wt) wt = big_block_close(&b); } rows = total(fs); content.assign(rows, ""); made = true; }
        else if (op.kind == 1) { const sizes_t &fs = GROW[op.a]; ctx = "append " + fmt_sizes(fs); mc_note("%s", ctx.c_str()); rt = big_file_create_records(&rf, &r.t, "a+", fs.size(), fs.data()); for (int c = 0; c < n && !wt; c++) wt = column(c, [&](BigBlock *b) { return big_block_grow(b, fs.size(), fs.data()); }); if (made) { rows += total(fs); content.resize(rows); } }
        else if (op.kind == 2) { ctx = sprintfs("write %zu at %zu", op.b, op.a); mc_note("%s", ctx.c_str()); str v = recs(r, op.a, op.b, stamp); { Buf buf(v); rt = big_file_write_records(&rf, &r.t, op.a, op.b, buf.p); MC_CHECK(buf.s() == v, "%s changed the caller's records", ctx.c_str()); }
            for (int c = 0; c < n && !wt; c++) wt = column(c, [&](BigBlock *b) { str dt = norm(r.f[c].dt); if (op.b == 0) { BigBlockPtr p; return big_block_seek(b, &p, op.a); } return wr_at(b, op.a, col(r, c, v), dt.c_str(), r.f[c].nm); }); if (!wt) for (size_t i = 0; i < op.b; i++) content[op.a + i] = v.substr(i * r.item, r.item); }
        else { ctx = sprintfs("read %zu at %zu", op.b, op.a); mc_note("%s", ctx.c_str()); Buf buf(op.b * r.item); rt = big_file_read_records(&rf, &r.t, op.a, op.b, buf.p); str got = buf.s();
            for (int c = 0; c < n && !wt; c++) wt = column(c, [&](BigBlock *b) { str dt = norm(r.f[c].dt), s; int x = rd_at(b, op.a, op.b, s, dt.c_str(), r.f[c].nm); if (x == 0 && rt == 0) MC_CHECK(col(r, c, got) == s, "%s: field %d is %s, the column reads as %s", ctx.c_str(), c, hex(col(r, c, got)).c_str(), hex(s).c_str()); return x; });
            if (rt == 0 && wt == 0 && !cast) for (size_t i = 0; i < op.b; i++) if (!content[op.a + i].empty()) MC_CHECK(got.substr(i * r.item, r.item) == content[op.a + i], "%s: record %zu is %s, written was %s", ctx.c_str(), op.a + i, hex(got.substr(i * r.item, r.item)).c_str(), hex(content[op.a + i]).c_str()); }
        mc_transitions(1 + n); MC_CHECK((rt != 0) == (wt != 0), "%s: returns %d, on the columns it is %d (%s)", ctx.c_str(), rt, wt, errmsg());
        if (op.kind == 2 && op.a + op.b > rows) MC_CHECK(rt != 0, "%s of %zu succeeds", ctx.c_str(), rows); if (rt != 0) mc_count(0);
        if (op.b || op.kind < 2) same(ctx.c_str());      // an empty write may or may not rewrite the header
    }
    OK(big_file_close(&rf)); OK(big_file_close(&cf));
}
static std::vector<int> kinds_of(int code, int len) { std::vector<int> k; while (len--) { k.push_back(code % FS.size()); code /= FS.size(); } return k; }
static void types() {       // every type of up to four fields: fields of a record buffer, and a first write and read
    int len = 1 + mc_choose(mc_thorough() ? 5 : 4); int total_ = 1; for (int i = 0; i < len; i++) total_ *= FS.size(); int code = 0; for (int i = 0; i < len && i < 2; i++) code = code * FS.size() + mc_choose(FS.size()); mc_split(); for (int i = 2; i < len; i++) code = code * FS.size() + mc_choose(FS.size());
    int how = mc_choose(3, "how"); RT r; build(r, kinds_of(code, len), how); size_t N = 3; mc_note("fields %d of code %d, how %d", len, code, how);
    str v = recs(r, 0, N, 5), w(v.size(), '\x5a'); Buf buf(w); std::vector<std::pair<int, int>> seq;
    for (size_t i = 0; i < N; i++) for (int c = 0; c < len; c++) { Buf one(fieldval(r, c, i, 5)); big_record_set(&r.t, buf.p, N - 1 - i == 1 ? 1 : i, c, one.p); size_t at = i * r.item + r.off[c]; w.replace(at, r.w(c), one.s()); MC_CHECK(buf.s() == w, "setting field %d of record %zu gives %s, expected %s", c, i, hex(buf.s()).c_str(), hex(w).c_str()); mc_transitions(); }
    MC_CHECK(w == v, "harness"); for (size_t i = 0; i < N; i++) for (int c = 0; c < len; c++) { Buf one(r.w(c)); big_record_get(&r.t, buf.p, i, c, one.p); MC_CHECK(one.s() == fieldval(r, c, i, 5) && buf.s() == v, "field %d of record %zu is %s", c, i, hex(one.s()).c_str()); BigArray a; OK(big_record_view_field(&r.t, c, &a, N, buf.p)); MC_CHECK((char *)a.data == buf.p + r.off[c] && a.size == N * r.f[c].nm && a.strides[0] == (ptrdiff_t)r.item && a.strides[a.ndim - 1] == width(norm(r.f[c].dt)) && norm(r.f[c].dt) == a.dtype, "the view of field %d is wrong", c); }
    if (how == 0 || len < 3) hist(kinds_of(code, len), how, 0, 16, 0);
    mc_wipe("rf"); mc_wipe("cf"); mc_state(mc_hash_str(v, r.item));
}
static void sequences() {   // histories
    static const std::vector<std::vector<int>> KS = {{0}, {3, 1}, {1, 2, 4}, {6, 0, 5, 2}, {5, 5, 5}}; const auto &k = mc_pick(KS); int b = std::vector<int>{1, 20, 4096}[mc_choose(3)], cast = mc_choose(2); int how = mc_choose(2); int few = mc_choose(2); mc_split(); hist(k, how, (mc_thorough() ? 3 : 2) + few * 2, b, cast, few);
}
static void many() { int nf = 5 + 9 * mc_choose(4); mc_split(); std::vector<int> k; for (int i = 0; i < nf; i++) k.push_back((i * 5 + i / 3) % FS.size()); int how = mc_choose(3); hist(k, how, 2, 64, 0); }
static void badmode() { RT r; mc_split(); build(r, {0}, 0); mc_wipe("rf"); others("rf"); auto t = tree("rf"); OK(big_file_open(&rf, "rf")); size_t fs[1] = {1}; for (const char *m : {"", "w", "a", "r", "r+", "x+", "w+b"}) { MC_CHECK(big_file_create_records(&rf, &r.t, m, 1, fs) != 0, "creating records with mode '%s' succeeded", m); MC_CHECK(tree("rf") == t, "a refused creation changed the file"); } OK(big_file_close(&rf)); }
static void run() { switch (mc_choose(4)) { case 0: return sequences(); case 1: return types(); case 2: return many(); default: return badmode(); } }
int main(int c, char **v) { mc_track_module("libbf"); McOpts o; o.property = "C18"; o.run = run; o.counters[0] = "operations_that_failed_alike"; return mc_main(c, v, o); }
