// C12: independent processes on the same file, in every interleaving of their file system calls.
#include "proc.h"
static const char *DT = "<i4"; static const int RS = 4;
static str rows(int stamp, size_t r0, size_t n) { str s; for (size_t i = 0; i < n; i++) s += rowpat(stamp, r0 + i, RS); return s; }
static int wrl(Lib &l, BigBlock *b, size_t at, const str &v) { BigBlockPtr p; int rt = l.big_block_seek(b, &p, at); if (rt) return rt; Buf buf(v); BigArray a; size_t d[2] = {v.size() / RS, 1}; l.big_array_init(&a, buf.p, DT, 2, d, NULL); rt = l.big_block_write(b, &p, &a); MC_CHECK(buf.s() == v, "a write changed the caller's array"); return rt; }
static int rdl(Lib &l, BigBlock *b, size_t at, size_t n, str &out) { BigBlockPtr p; int rt = l.big_block_seek(b, &p, at); if (rt) return rt; Buf buf(n * RS); BigArray a; size_t d[2] = {n, 1}; l.big_array_init(&a, buf.p, DT, 2, d, NULL); rt = l.big_block_read(b, &p, &a); out = buf.s(); return rt; }
static void bufs(int n) { for (int i = 0; i < 3; i++) L[i].big_file_set_buffer_size(n); }
static void mk(const char *blk, const sizes_t &fs, int stamp, bool attr = true) {
    BigFile f; BigBlock b; Lib &l = L[0]; LOK(l, big_file_create(&f, "f")); LOK(l, big_file_create_block(&f, &b, blk, DT, 1, fs.size(), fs.data()));
    if (stamp && total(fs)) MC_CHECK(wrl(l, &b, 0, rows(stamp, 0, total(fs))) == 0, "setup"); if (attr) LOK(l, big_block_set_attr(&b, "a", "old", "S1", 3)); LOK(l, big_block_close(&b)); LOK(l, big_file_close(&f));
}
// what the data files of a block must hold; empty row: not checked
static void content(const char *blk, const sizes_t &fs, const std::vector<str> &want, const char *dt = DT) {
    str d = str("f/") + blk; Header h; str t = slurp(d + "/header"); MC_CHECK(parse_header(t, h), "the header of %s is malformed afterwards: '%s'", blk, show(t).c_str()); MC_CHECK(h.dtype == dt && h.nmemb == 1 && h.fsize == fs, "the header of %s is '%s'", blk, show(t).c_str());
    size_t r = 0; for (size_t i = 0; i < fs.size(); i++) { str s = slurp(d + "/" + fname(i)); MC_CHECK(s.size() <= fs[i] * RS, "file %zu of %s has %zu bytes", i, blk, s.size()); for (size_t k = 0; k < fs[i]; k++, r++) if (!want[r].empty()) { str g = s.size() >= (k + 1) * RS ? s.substr(k * RS, RS) : ""; MC_CHECK(g == want[r], "row %zu of %s is %s, what was written is %s", r, blk, hex(g).c_str(), hex(want[r]).c_str()); } }
    BigFile f; BigBlock b; Lib &l = L[0]; LOK(l, big_file_open(&f, "f")); LOK(l, big_file_open_block(&f, &b, blk)); MC_CHECK(b.size == total(fs), "size %zu", b.size); for (size_t i = 0; i < r; i++) if (!want[i].empty()) { str s; MC_CHECK(rdl(l, &b, i, 1, s) == 0 && s == want[i], "row %zu of %s reads as %s, what was written is %s", i, blk, hex(s).c_str(), hex(want[i]).c_str()); } LOK(l, big_block_close(&b)); LOK(l, big_file_close(&f));
}
static void noextra(const std::set<str> &allowed) { for (auto &x : tree("f")) { size_t k = x.first.rfind('/', x.first.size() - 2); str n = x.first.substr(k + 1); bool data = n.size() == 6 && n.find_first_not_of("0123456789ABCDEF") == str::npos; MC_CHECK(data || n == "header" || n == "attr-v2" || allowed.count(n), "'%s' is left behind", x.first.c_str()); } }
static void finish(uint64_t h) { mc_state(tree_hash(tree("f"), h)); mc_count(0); }
static const std::vector<sizes_t> PARTS = {{4}, {2, 2}, {1, 3}, {2, 0, 2}, {1, 1, 1, 1}};
struct W { size_t at, n; };
static void writers() {
    const sizes_t &fs = mc_pick(PARTS, "partition"); int how = mc_choose(8, "ranges"), bs = std::vector<int>{1, 9, 4096}[mc_choose(3, "buffer")]; bool pre = mc_choose(2, "written before"); int flush = mc_choose(2, "flush");
    static const std::vector<std::vector<std::vector<W>>> R = {{{{0, 2}}, {{2, 2}}}, {{{0, 1}}, {{1, 3}}}, {{{0, 1}, {2, 1}}, {{1, 1}, {3, 1}}}, {{{3, 1}, {0, 1}}, {{1, 2}}}, {{{0, 4}}, {}}, {{{1, 1}}, {{2, 1}}}, {{{0, 1}}, {{1, 1}}, {{2, 2}}}, {{{3, 1}}, {{0, 2}}, {{2, 1}}}};
    auto &rs = R[how]; int n = rs.size(); mc_split(); if (n == 3 && flush && !mc_thorough()) return; mc_wipe("."); bufs(bs); mc_note("partition %s, %d processes, buffer %d", fmt_sizes(fs).c_str(), n, bs); mk("b", fs, pre ? 9 : 0);
    std::vector<str> want(4); if (pre) for (int i = 0; i < 4; i++) want[i] = rowpat(9, i, RS); for (int p = 0; p < n; p++) for (auto &w : rs[p]) for (size_t i = 0; i < w.n; i++) want[w.at + i] = rowpat(p + 1, w.at + i, RS);
    sched_run(n, [&](int p) { Lib &l = L[p]; McfsScope sc(MCFS_SCHED); BigFile f; BigBlock b; LOK(l, big_file_open(&f, "f")); LOK(l, big_file_open_block(&f, &b, "b"));
        for (auto &w : rs[p]) { str v = rows(p + 1, w.at, w.n); if (wrl(l, &b, w.at, v)) mc_fail("%d: writing %zu rows at %zu fails: %s", p, w.n, w.at, l.err()); str s; if (rdl(l, &b, w.at, w.n, s) || s != v) mc_fail("%d: the rows just written at %zu read as %s", p, w.at, hex(s).c_str()); if (flush) LOK(l, big_block_flush(&b)); }
        LOK(l, big_block_close(&b)); LOK(l, big_file_close(&f)); });
    content("b", fs, want); noextra({"b/"}); finish(how);
}
static void creators() {
    static const std::vector<std::vector<str>> N = {{"a/b/x", "a/b/y"}, {"a/b/x", "a/y"}, {"x", "y"}, {"a/x", "b/y"}, {"a/b/c/d/x", "a/b/c/e/y"}, {"a/x", "a/y", "a/z"}, {"p/q/x", "p/r/y", "p/q/z"}}; auto &nm = mc_pick(N, "names"); int n = nm.size(), create = mc_choose(2, "create the file"), fill = mc_choose(2, "write"); const sizes_t fs = mc_pick(std::vector<sizes_t>{{2, 2}, {}, {3}}, "partition"); mc_split();  mc_wipe("."); bufs(64); mc_note("%d processes create blocks %s, %s", n, nm[0].c_str(), nm[1].c_str());
    if (!create) { BigFile f; LOK(L[0], big_file_create(&f, "f")); LOK(L[0], big_file_close(&f)); }
    sched_run(n, [&](int p) { Lib &l = L[p]; McfsScope sc(MCFS_SCHED); BigFile f; BigBlock b; if (create) LOK(l, big_file_create(&f, "f")); else LOK(l, big_file_open(&f, "f")); LOK(l, big_file_create_block(&f, &b, nm[p].c_str(), DT, 1, fs.size(), fs.data()));
        if (fill && total(fs)) if (wrl(l, &b, 0, rows(p + 1, 0, total(fs)))) mc_fail("%d: write: %s", p, l.err()); LOK(l, big_block_set_attr(&b, "who", nm[p].c_str(), "S1", nm[p].size())); LOK(l, big_block_close(&b)); LOK(l, big_file_close(&f)); });
    std::set<str> dirs; for (int p = 0; p < n; p++) { std::vector<str> w(total(fs)); if (fill) for (size_t i = 0; i < w.size(); i++) w[i] = rowpat(p + 1, i, RS); content(nm[p].c_str(), fs, w); BigFile f; BigBlock b; Lib &l = L[0]; LOK(l, big_file_open(&f, "f")); LOK(l, big_file_open_block(&f, &b, nm[p].c_str())); char v[32] = ""; LOK(l, big_block_get_attr(&b, "who", v, "S1", nm[p].size())); MC_CHECK(nm[p] == v, "attribute of %s is '%s'", nm[p].c_str(), v); LOK(l, big_block_close(&b)); 
        char **bl; int nb; LOK(l, big_file_list(&f, &bl, &nb)); std::set<str> s; for (int i = 0; i < nb; i++) { s.insert(bl[i]); free(bl[i]); } free(bl); MC_CHECK(s == std::set<str>(nm.begin(), nm.end()) && nb == n, "%d blocks are listed", nb); LOK(l, big_file_close(&f)); size_t k; str q = nm[p] + "/"; while ((k = q.rfind('/')) != str::npos) { q = q.substr(0, k); size_t j = q.rfind('/'); dirs.insert((j == str::npos ? q : q.substr(j + 1)) + "/"); } }
    noextra(dirs); finish(n);
}
// a process uses what is there already while another one changes other parts of the same block, or other blocks
static void readers() {
    const sizes_t fs = mc_pick(std::vector<sizes_t>{{4}, {2, 2}, {1, 3}}, "partition"); int act = mc_choose(8, "writer"), nr = 1 + mc_choose(2, "readers"), bs = mc_choose(2) ? 4096 : 5; mc_split();  mc_wipe("."); bufs(bs); mk("b", fs, 9); mk("o/c", fs, 8); size_t grown = act == 3 || act == 7 ? 3 : 0; bool attrs = act == 2 || act == 6; mc_note("partition %s: one process does %d, %d read", fmt_sizes(fs).c_str(), act, nr);
    sched_run(1 + nr, [&](int p) { Lib &l = L[p]; McfsScope sc(MCFS_SCHED); BigFile f; BigBlock b; LOK(l, big_file_open(&f, "f"));
        if (p == 0) { if (act == 4) { size_t g[2] = {1, 1}; LOK(l, big_file_create_block(&f, &b, "o/new/d", DT, 1, 2, g)); LOK(l, big_block_close(&b)); LOK(l, big_file_close(&f)); return; }
            LOK(l, big_file_open_block(&f, &b, "b"));
            if (act == 0) { if (wrl(l, &b, 2, rows(1, 2, 2))) mc_fail("write: %s", l.err()); }
            if (act == 1 || act == 6) { if (wrl(l, &b, 2, rows(1, 2, 1)) || l.big_block_flush(&b) || wrl(l, &b, 3, rows(1, 3, 1))) mc_fail("write: %s", l.err()); }
            if (attrs) { LOK(l, big_block_set_attr(&b, "a", "new!", "S1", 4)); LOK(l, big_block_set_attr(&b, "b", "longer attribute value, longer than the other one", "S1", 49)); }
            if (grown) { size_t g[2] = {1, 2}; LOK(l, big_block_grow(&b, 2, g)); }
            if (act == 7 && wrl(l, &b, 3, rows(1, 3, 4))) mc_fail("write: %s", l.err());
            LOK(l, big_block_close(&b)); LOK(l, big_file_close(&f)); return; }
        int rt = l.big_file_open_block(&f, &b, "b"); if (rt) mc_fail("%d: opening a block somebody else is using fails: %s", p, l.err());
        MC_CHECK(b.size == 4 || (grown && b.size == 7), "%d: the block has %zu rows", p, b.size); MC_CHECK(b.Nfile == (int)fs.size() + (b.size == 7 ? 2 : 0), "%d: %d files for %zu rows", p, b.Nfile, b.size);
        str s; for (int k = 0; k < 2; k++) if (rdl(l, &b, 0, 2, s) || s != rows(9, 0, 2)) mc_fail("%d: rows 0-1, which nobody touches, read as %s (%s)", p, hex(s).c_str(), l.err());
        size_t na; BigAttr *at = l.big_block_list_attrs(&b, &na); std::map<str, str> m; for (size_t i = 0; i < na; i++) m[at[i].name] = str(at[i].data, at[i].nmemb);
        MC_CHECK(m["a"] == "old" || (attrs && m["a"] == "new!"), "%d: attribute a is '%s'", p, show(m["a"]).c_str()); MC_CHECK(m.size() == 1 || (attrs && m.size() == 2 && m["b"] == "longer attribute value, longer than the other one"), "%d: %zu attributes", p, m.size());
        if (p == nr || act < 4 || mc_thorough()) { char **bl = 0; int nb = 0; rt = l.big_file_list(&f, &bl, &nb); MC_CHECK(rt == 0, "%d: listing fails: %s", p, l.err()); std::set<str> x; for (int i = 0; i < nb; i++) { x.insert(bl[i]); free(bl[i]); } free(bl); MC_CHECK(x.count("b") && x.count("o/c"), "%d: a block is missing in the list", p); x.erase("b"); x.erase("o/c"); if (act == 4) x.erase("o/new/d"); MC_CHECK(x.empty(), "%d: '%s' is listed", p, x.begin()->c_str()); }
        LOK(l, big_block_close(&b)); LOK(l, big_file_close(&f)); });
    std::vector<str> w(4 + grown); for (int i = 0; i < 4; i++) w[i] = rowpat((act == 0 || act == 1 || act == 6) && i >= 2 ? 1 : act == 7 && i == 3 ? 1 : 9, i, RS); if (act == 7) for (int i = 4; i < 7; i++) w[i] = rowpat(1, i, RS); sizes_t g = fs; if (grown) { g.push_back(1); g.push_back(2); }
    content("b", g, w); std::vector<str> v(4); for (int i = 0; i < 4; i++) v[i] = rowpat(8, i, RS); content("o/c", fs, v); noextra({"b/", "o/", "c/", "new/", "d/"}); finish(act);
}
static void run() { switch (mc_choose(3)) { case 0: return writers(); case 1: return creators(); default: return readers(); } }
int main(int c, char **v) { procs_load(v[0], 3); McOpts o; o.property = "C12"; o.run = run; o.worker_init = sched_fs; o.counters[0] = "interleavings"; mc_before_exec = mcfs_reset; return mc_main(c, v, o); }
