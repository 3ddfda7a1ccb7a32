// C09: a system call fails or transfers less than requested, at every point of every short history.
#include "bf.h"
#include "mcfs.h"
static BigFile bf; static bool failed_any; static std::map<str, BigBlock> H;   // open handles
struct Opt { std::set<str> vals; };                    // the values that are possible ("\1absent" = not there)
struct Blk { str dt; int nm; std::vector<sizes_t> shapes; std::vector<std::set<str>> rows; std::map<str, std::set<str>> attrs; bool maybe_gone = false, gone = false; sizes_t stored; };
static std::map<str, Blk> M; static const str ABS = "\1absent", UNW = "\1unwritten";
static std::map<str, std::vector<unsigned>> sums;      // what a successful close stored
static const char *opname; static bool dead;           // the history ends here
template <class F> static int lib(const char *what, F f) {
    opname = what; mc_note("%s", what); big_file_set_error_message(NULL); int before = mcfs_faults(); int rt; { McfsScope s(MCFS_FAULT); rt = f(); } mcfs_heal();
    if (rt != 0) { failed_any = true; MC_CHECK(big_file_get_error_message() && *big_file_get_error_message(), "%s failed without a message", what); MC_CHECK(mcfs_faults() > before, "%s failed though nothing went wrong: %s", what, errmsg()); mc_note("  -> failed: %s", errmsg()); mc_count(1); }
    else if (mcfs_faults() > before) { mc_note("  -> succeeded anyway"); mc_count(2); }
    return rt;
}
static str row(int stamp, int r, int rs) { return rowpat(stamp, r, rs); }
static int rs(const Blk &b) { return width(b.dt) * b.nm; }
static void op_open(const str &n) { BigBlock b; if (lib("open", [&]() { return big_file_open_block(&bf, &b, n.c_str()); }) == 0) { H[n] = b; Blk &m = M[n]; MC_CHECK(m.shapes.size() == 1 && b.size == total(m.shapes[0]) && m.dt == b.dtype && b.nmemb == m.nm && b.Nfile == (int)m.shapes[0].size(), "open succeeded with %zu rows in %d files of %s x %d", b.size, b.Nfile, b.dtype, b.nmemb);
    size_t c; BigAttr *l = big_block_list_attrs(&H[n], &c); std::map<str, str> got; for (size_t i = 0; i < c; i++) got[l[i].name] = str(l[i].data, l[i].nmemb * width(l[i].dtype)); for (auto &a : m.attrs) { str g = got.count(a.first) ? got[a.first] : ABS; MC_CHECK(a.second.count(g), "open succeeded but attribute '%s' is %s", a.first.c_str(), show(g).c_str()); } for (auto &g : got) MC_CHECK(m.attrs.count(g.first), "open succeeded with an attribute '%s' never set", g.first.c_str()); } }
static void op_close(const str &n) { BigBlock b = H[n]; H.erase(n); std::vector<unsigned> s(b.fchecksum, b.fchecksum + b.Nfile); if (lib("close", [&]() { return big_block_close(&b); }) == 0) { sums[n] = s; M[n].stored = M[n].shapes[0]; } else { sums.erase(n); M[n].shapes.push_back(M[n].stored); M[n].maybe_gone = true; dead = true; for (auto &a : M[n].attrs) (void)a; } }
static void op_flush(const str &n) { std::vector<unsigned> s(H[n].fchecksum, H[n].fchecksum + H[n].Nfile); if (lib("flush", [&]() { return big_block_flush(&H[n]); }) == 0) { sums[n] = s; M[n].stored = M[n].shapes[0]; } else sums.erase(n); }
static void op_write(const str &n, size_t off, size_t k, int stamp) {
    Blk &m = M[n]; str d; for (size_t i = 0; i < k; i++) d += row(stamp, off + i, rs(m)); sums.erase(n);
    int rt = lib(sprintfs("write rows %zu to %zu", off, off + k).c_str(), [&]() { return wr_at(&H[n], off, d, m.dt.c_str(), m.nm); });
    for (size_t i = 0; i < k; i++) { str r = d.substr(i * rs(m), rs(m)); if (rt == 0) m.rows[off + i] = {r}; else m.rows[off + i].insert(r), m.rows[off + i].insert("\2mix" + r); }
}
static bool rowok(const std::set<str> &s, const str &g) { if (s.count(g)) return true; for (auto &x : s) if (x.compare(0, 4, "\2mix") == 0) { str nw = x.substr(4); for (auto &y : s) { if (y.compare(0, 4, "\2mix") == 0) continue; str old = y == UNW ? str(g.size(), 0) : y; bool ok = old.size() == g.size(); for (size_t i = 0; i < g.size() && ok; i++) ok = g[i] == nw[i] || g[i] == old[i]; if (ok) return true; } } if (s.count(UNW) && g == str(g.size(), 0)) return true; return false; }
static void op_read(const str &n) { Blk &m = M[n]; size_t k = m.rows.size(); str s; bool unw = false; for (auto &r : m.rows) if (r.count(UNW)) unw = true; int before = mcfs_faults(); if (unw) { int rt; { McfsScope sc(MCFS_FAULT); rt = rd_at(&H[n], 0, k, s, m.dt.c_str(), m.nm); } mcfs_heal(); if (rt) { MC_CHECK(errmsg()[0], "no message"); return; } (void)before; } else if (lib("read", [&]() { return rd_at(&H[n], 0, k, s, m.dt.c_str(), m.nm); })) return; for (size_t i = 0; i < k; i++) MC_CHECK(rowok(m.rows[i], s.substr(i * rs(m), rs(m))), "a successful read gave %s for row %zu", hex(s.substr(i * rs(m), rs(m))).c_str(), i); }
static void op_set(const str &n, const str &a, const str &v) { if (lib(("set " + a).c_str(), [&]() { return big_block_set_attr(&H[n], a.c_str(), v.data(), "S1", v.size()); }) == 0) M[n].attrs[a] = {v}; }
static void op_del(const str &n, const str &a) { if (M[n].attrs[a].size() != 1 || M[n].attrs[a].count(ABS)) return; if (lib(("remove " + a).c_str(), [&]() { return big_block_remove_attr(&H[n], a.c_str()); }) == 0) M[n].attrs[a] = {ABS}; }
static void op_grow(const str &n) { size_t f[2] = {1, 1}; Blk &m = M[n]; sizes_t old = m.shapes.back(), s = old; s.push_back(1); s.push_back(1); sums.erase(n); BigBlock &b = H[n];
    if (lib("grow", [&]() { return big_block_grow(&b, 2, f); }) == 0) { m.shapes = {s}; m.rows.push_back({UNW}); m.rows.push_back({UNW}); MC_CHECK(b.size == total(s) && b.Nfile == (int)s.size(), "grown to %zu rows in %d files", b.size, b.Nfile); }
    else { m.shapes = {old}; MC_CHECK(b.size == total(old) && b.Nfile == (int)old.size(), "a failed grow leaves the block with %zu rows in %d files", b.size, b.Nfile); } }
static void op_create(const str &n, const char *dt, int nm, sizes_t fs) { BigBlock b; bool existed = M.count(n); Blk o; o.dt = dt; o.nm = nm; o.shapes = {fs}; o.rows.assign(total(fs), {UNW}); sums.erase(n);
    if (lib(("create " + n).c_str(), [&]() { return big_file_create_block(&bf, &b, n.c_str(), dt, nm, fs.size(), fs.data()); }) == 0) { o.stored = fs; M[n] = o; H[n] = b; } else { dead = true; if (existed) M[n].gone = true; else { M[n] = o; M[n].gone = true; } } }
static void op_list() { char **l = NULL; int k = 0; if (lib("list", [&]() { return big_file_list(&bf, &l, &k); }) == 0) { std::multiset<str> got, want; for (int i = 0; i < k; i++) { got.insert(l[i]); free(l[i]); } free(l); for (auto &m : M) want.insert(m.first); str g; for (auto &x : got) g += x + " "; MC_CHECK(got == want, "a successful list gave: %s", g.c_str()); } }
static void op_simple(const str &n) { Blk &m = M[n]; str s; size_t rows = 0; int rt = 0; for (auto &r : m.rows) if (r.count(UNW)) return; if (lib("read_simple", [&]() { return rt = rd_simple(&H[n], 1, 50, s, rows, m.dt.c_str()); })) return; MC_CHECK(rows == m.rows.size() - 1, "read_simple gave %zu rows", rows); for (size_t i = 0; i < rows; i++) MC_CHECK(rowok(m.rows[i + 1], s.substr(i * rs(m), rs(m))), "a successful read_simple gave %s for row %zu", hex(s.substr(i * rs(m), rs(m))).c_str(), i + 1); }
static void op_records(int kind) { BigRecordType r; memset(&r, 0, sizeof r); big_record_type_add(&r, "r/one", "<i4", 1); big_record_type_add(&r, "r/two", "<u2", 2); big_record_type_complete(&r); size_t f[2] = {1, 2}; str d; for (int i = 0; i < 3; i++) d += rowpat(8, i, 8); bool have = M.count("r/one");
    auto sl = [&](int c, int i) { return c ? d.substr(i * 8 + 4, 4) : d.substr(i * 8, 4); };
    if (kind == 0 && !have) { int rt = lib("create records", [&]() { return big_file_create_records(&bf, &r, "w+", 2, f); }); for (int c = 0; c < 2; c++) { Blk o; o.dt = c ? "<u2" : "<i4"; o.nm = c ? 2 : 1; o.shapes = {{1, 2}}; o.rows.assign(3, {UNW}); o.gone = rt != 0; M[c ? "r/two" : "r/one"] = o; } if (rt) dead = true; }
    if (kind == 1 && have) { int rt = lib("write records", [&]() { return big_file_write_records(&bf, &r, 0, 3, d.data()); }); for (int c = 0; c < 2; c++) { Blk &m = M[c ? "r/two" : "r/one"]; sums.erase(c ? "r/two" : "r/one"); if (rt) m.maybe_gone = true; for (int i = 0; i < 3; i++) if (!rt) m.rows[i] = {sl(c, i)}; else m.rows[i].insert(sl(c, i)), m.rows[i].insert("\2mix" + sl(c, i)); } if (rt) dead = true; }
    if (kind == 2 && have) { Buf o(24); if (M["r/one"].rows[0].count(UNW)) { big_record_type_clear(&r); return; } if (lib("read records", [&]() { return big_file_read_records(&bf, &r, 0, 3, o.p); }) == 0) MC_CHECK(o.s() == d, "a successful read of records gave something else"); }
    if (kind == 3 && have) { size_t g[1] = {1}; int rt = lib("append records", [&]() { return big_file_create_records(&bf, &r, "a+", 1, g); }); for (int c = 0; c < 2; c++) { Blk &m = M[c ? "r/two" : "r/one"]; sizes_t s = m.shapes[0]; s.push_back(1); if (rt) { m.shapes.push_back(s); m.maybe_gone = true; dead = true; } else m.shapes = {s}; sums.erase(c ? "r/two" : "r/one"); m.rows.push_back({UNW}); } }
    big_record_type_clear(&r); }
static void verify(const str &n, Blk &m) {     // from a fresh open, nothing failing any more
    BigBlock b; int rt = big_file_open_block(&bf, &b, n.c_str());
    if (rt != 0) { MC_CHECK(m.gone || m.maybe_gone, "block %s can not be opened any more: %s", n.c_str(), errmsg()); MC_CHECK(errmsg()[0], "no message"); return; }
    if (m.gone) { OK(big_block_close(&b)); return; }   // what a failed creation leaves may be anything that opens; C08 looks at it
    int shape = -1; for (size_t i = 0; i < m.shapes.size(); i++) if ((size_t)b.Nfile == m.shapes[i].size() && b.size == total(m.shapes[i])) shape = i; MC_CHECK(shape >= 0 && m.dt == b.dtype && b.nmemb == m.nm, "block %s now has %zu rows in %d files of %s x %d", n.c_str(), b.size, b.Nfile, b.dtype, b.nmemb);
    for (size_t i = 0; i < b.size && i < m.rows.size(); i++) { str s; int r = rd_at(&b, i, 1, s, m.dt.c_str(), m.nm); if (r) { MC_CHECK(m.rows[i].count(UNW) || m.maybe_gone, "row %zu of %s can not be read: %s", i, n.c_str(), errmsg()); continue; } MC_CHECK(rowok(m.rows[i], s), "row %zu of %s is %s, expected %s", i, n.c_str(), hex(s).c_str(), hex(*m.rows[i].begin()).c_str()); }
    size_t c; BigAttr *l = big_block_list_attrs(&b, &c); std::map<str, str> got; for (size_t i = 0; i < c; i++) got[l[i].name] = str(l[i].data, l[i].nmemb * width(l[i].dtype));
    if (!m.maybe_gone) { for (auto &a : m.attrs) { str g = got.count(a.first) ? got[a.first] : ABS; MC_CHECK(a.second.count(g), "every call reported success for attribute '%s' of %s, but it is %s", a.first.c_str(), n.c_str(), show(g).c_str()); } for (auto &g : got) MC_CHECK(m.attrs.count(g.first), "attribute '%s' of %s was never set", g.first.c_str(), n.c_str()); }
    if (sums.count(n)) for (int i = 0; i < b.Nfile; i++) MC_CHECK(b.fchecksum[i] == sums[n][i], "the stored checksum of file %d of %s is %u, it was %u when stored successfully", i, n.c_str(), b.fchecksum[i], sums[n][i]);
    OK(big_block_close(&b));
}
static void setup() {
    mc_wipe("bf"); mcfs_reset(); M.clear(); H.clear(); sums.clear(); failed_any = dead = false; big_file_set_buffer_size(8);
    OK(big_file_create(&bf, "bf")); BigBlock b; size_t f1[3] = {2, 0, 1}, f2[1] = {2};
    OK(big_file_create_block(&bf, &b, "g/x", "<i4", 1, 3, f1)); Blk m; m.dt = "<i4"; m.nm = 1; m.shapes = {{2, 0, 1}}; m.stored = m.shapes[0]; str d; for (int i = 0; i < 3; i++) { d += row(1, i, 4); m.rows.push_back({row(1, i, 4)}); } OK(wr_at(&b, 0, d, "<i4", 1)); OK(big_block_set_attr(&b, "a", "old", "S1", 3)); m.attrs["a"] = {"old"}; OK(big_block_set_attr(&b, "k", "keep", "S1", 4)); m.attrs["k"] = {"keep"}; OK(big_block_close(&b)); M["g/x"] = m;
    OK(big_file_create_block(&bf, &b, "y", "<u2", 2, 1, f2)); Blk y; y.dt = "<u2"; y.nm = 2; y.shapes = {{2}}; y.stored = y.shapes[0]; d.clear(); for (int i = 0; i < 2; i++) { d += row(2, i, 4); y.rows.push_back({row(2, i, 4)}); } OK(wr_at(&b, 0, d, "<u2", 2)); OK(big_block_set_attr(&b, "a", "yy", "S1", 2)); y.attrs["a"] = {"yy"}; OK(big_block_close(&b)); M["y"] = y;
}
static void finish() {
    while (!H.empty()) { auto h = *H.begin(); H.erase(H.begin()); if (dead) { mcfs_on(MCFS_LOG); big_block_close(&h.second); mcfs_off(); M[h.first].maybe_gone |= M[h.first].gone; continue; } std::vector<unsigned> s(h.second.fchecksum, h.second.fchecksum + h.second.Nfile); mcfs_on(MCFS_LOG); int rt = big_block_close(&h.second); mcfs_off(); MC_CHECK(rt == 0, "closing %s when nothing fails any more: %s", h.first.c_str(), errmsg()); sums[h.first] = s; }
    OK(big_file_close(&bf)); str w; int n = mcfs_leaked(&w); MC_CHECK(n == 0, "%d files are left open: %s", n, w.c_str());
    OK(big_file_open(&bf, "bf")); for (auto &m : M) verify(m.first, m.second); OK(big_file_close(&bf)); mc_state(tree_hash(tree("bf")));
}
static bool step(int op) { if (M.count("g/x")) for (const char *q : {"a", "b", "k"}) if (!M["g/x"].attrs.count(q)) M["g/x"].attrs[q] = {ABS};     // one operation; false: not possible here
    const str X = "g/x"; bool open = H.count(X) && M.count(X), isnew = H.count("g/n/new");
    switch (op) {
    case 0: if (open) op_close(X); else op_open(X); return true;
    case 1: if (!open) return false; op_write(X, 0, 3, 21); return true;
    case 2: if (!open) return false; op_write(X, 2, 1, 22); return true;
    case 3: if (!open) return false; op_set(X, "b", "new value"); return true;
    case 4: if (!open) return false; if (!M[X].attrs["a"].count(ABS)) op_del(X, "a"); else op_set(X, "a", "again"); return true;
    case 5: if (!open) return false; op_flush(X); return true;
    case 6: if (!open) return false; op_grow(X); return true;
    case 7: if (open) return false; op_create(X, "<u2", 3, {1, 2, 1, 1}); return true;
    case 8: if (!open) return false; op_read(X); if (!dead) op_simple(X); return true;
    case 9: op_list(); return true;
    case 10: if (isnew) { if (!M["g/n/new"].rows[0].count(UNW)) op_close("g/n/new"); else op_write("g/n/new", 0, 3, 30); } else if (!M.count("g/n/new")) op_create("g/n/new", "<f8", 1, {1, 2}); else op_open("g/n/new"); return true;
    case 11: op_records(M.count("r/one") ? 1 : 0); return true;
    case 12: if (!M.count("r/one")) return false; op_records(2); if (!dead) op_records(3); return true;
    case 13: { BigFile f; if (lib("open the file", [&]() { return big_file_open(&f, "bf"); }) == 0) OK(big_file_close(&f)); if (lib("create the file", [&]() { return big_file_create(&f, "bf/sub/file"); }) == 0) { MC_CHECK(exists("bf/sub/file"), "creating the file succeeded but it is not there"); OK(big_file_close(&f)); } return true; }
    }
    return false;
}
static void hist() {
    int a = mc_choose(14), b = mc_choose(14); mc_split(); setup(); int depth = 3;
    for (int d = 0; d < depth && !dead; d++) { int op = d == 0 ? a : d == 1 ? b : mc_choose(14, "op"); if (!step(op)) return; }
    finish();
}
static void longer() {         // chosen histories, deeper than the exhaustive ones
    static const std::vector<std::vector<int>> hs = {{0, 1, 3, 5, 2, 0, 0, 8, 0}, {0, 6, 1, 3, 4, 5, 0, 0, 8, 9}, {7, 10, 10, 10, 9, 0}, {0, 3, 4, 5, 4, 3, 5, 5, 0, 0, 8}, {11, 11, 12, 12, 9}, {0, 4, 5, 0, 0, 3, 0, 0, 8}, {10, 10, 10, 10, 10, 9, 13}, {0, 6, 5, 6, 5, 0, 0, 8, 9}};
    const auto &h = hs[mc_choose((int)hs.size())]; mc_split(); setup(); for (int op : h) { if (dead || !step(op)) break; } finish();
}
static void big() {            // many attributes and files: files larger than the stdio buffers
    int k = mc_choose(4); mc_split(); setup(); big_file_set_buffer_size(4096); sizes_t fs(k < 2 ? 3 : mc_thorough() ? 300 : 120, 1); op_create("big", "<i4", 1, fs); if (!dead && k % 2) { for (int i = 0; i < 40; i++) { str n = "attr" + std::to_string(i), v(60 + i, 'a' + i % 26); OK(big_block_set_attr(&H["big"], n.c_str(), v.data(), "S1", v.size())); M["big"].attrs[n] = {v}; } op_flush("big"); if (k == 1) op_set("big", "attr7", "x"); } if (!dead) op_close("big"); if (!dead) op_open("big"); finish();
}
static void run() { switch (mc_choose(3)) { case 0: return hist(); case 1: return longer(); default: return big(); } }
int main(int c, char **v) { mc_track_module("libbf"); McOpts o; o.property = "C09"; o.run = run; o.deviations = 1; o.worker_init = mcfs_install; o.counters[1] = "calls_that_reported_the_fault"; o.counters[2] = "calls_that_succeeded_in_spite_of_the_fault"; return mc_main(c, v, o); }
