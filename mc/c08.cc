// C08: the process stops at any system call, or in the middle of any write.
#include "bf.h"
#include "mcfs.h"
static BigFile bf;
struct Blk { str dt; int nm; sizes_t fs; std::vector<str> rows; std::map<str, str> attrs; };   // an empty row was never written
typedef std::map<str, Blk> State;
static State disk, mem;                    // what a fresh open must see; what the open handles hold
static std::map<str, BigBlock> H;
static std::set<str> touched;              // blocks the interrupted operation works on
static std::map<str, std::map<size_t, str>> rowsnew;   // rows the interrupted operation writes
static State after;                        // what it was going to leave
template <class F> static bool lib(const str &what, F f) {   // true: not crashed
    mc_note("%s", what.c_str()); int rt; { McfsScope s(MCFS_CRASH); rt = f(); }
    if (mcfs_crashed()) return false;
    MC_CHECK(rt == 0, "%s failed: %s", what.c_str(), errmsg()); return true;
}
static int rs(const Blk &b) { return width(b.dt) * b.nm; }
static void commit() { disk = after; touched.clear(); rowsnew.clear(); }
static void begin(std::set<str> t) { touched = t; after = disk; rowsnew.clear(); }
static bool op_open(const str &n) { begin({n}); BigBlock b; if (!lib("open " + n, [&]() { return big_file_open_block(&bf, &b, n.c_str()); })) return false; H[n] = b; mem[n] = disk[n]; return true; }
static void pend(const str &n) { auto rows = disk[n].rows; after[n] = mem[n]; for (size_t i = 0; i < rows.size(); i++) after[n].rows[i] = rows[i]; }
static bool op_close(const str &n) { begin({n}); pend(n); BigBlock b = H[n]; H.erase(n); if (!lib("close " + n, [&]() { return big_block_close(&b); })) return false; commit(); return true; }
static bool op_flush(const str &n) { begin({n}); pend(n); if (!lib("flush " + n, [&]() { return big_block_flush(&H[n]); })) return false; commit(); return true; }
static bool op_write(const str &n, size_t off, size_t k, int stamp) { begin({n}); Blk &m = mem[n]; str d; for (size_t i = 0; i < k; i++) { str r = rowpat(stamp, off + i, rs(m)); d += r; rowsnew[n][off + i] = r; } if (!lib("write " + n, [&]() { return wr_at(&H[n], off, d, m.dt.c_str(), m.nm); })) return false; for (auto &r : rowsnew[n]) { mem[n].rows[r.first] = r.second; if (r.first < disk[n].rows.size()) after[n].rows[r.first] = r.second; } commit(); return true; }
static bool op_grow(const str &n) { begin({n}); size_t f[2] = {1, 1}; if (!lib("grow " + n, [&]() { return big_block_grow(&H[n], 2, f); })) return false; mem[n].fs.push_back(1); mem[n].fs.push_back(1); mem[n].rows.push_back(""); mem[n].rows.push_back(""); return true; }
static bool op_set(const str &n, const str &a, const str &v) { begin({n}); if (!lib("set " + a, [&]() { return big_block_set_attr(&H[n], a.c_str(), v.data(), "S1", v.size()); })) return false; mem[n].attrs[a] = v; return true; }
static bool op_del(const str &n, const str &a) { begin({n}); if (!mem[n].attrs.count(a)) return true; if (!lib("remove " + a, [&]() { return big_block_remove_attr(&H[n], a.c_str()); })) return false; mem[n].attrs.erase(a); return true; }
static bool op_create(const str &n, const char *dt, int nm, sizes_t fs) { begin({n}); Blk b; b.dt = dt; b.nm = nm; b.fs = fs; b.rows.assign(total(fs), ""); after[n] = b; BigBlock h; if (!lib("create " + n, [&]() { return big_file_create_block(&bf, &h, n.c_str(), dt, nm, fs.size(), fs.data()); })) return false; H[n] = h; mem[n] = b; commit(); return true; }
static bool op_records(int kind) { BigRecordType r; memset(&r, 0, sizeof r); big_record_type_add(&r, "r/one", "<i4", 1); big_record_type_add(&r, "r/two", "<u2", 2); big_record_type_complete(&r); begin({"r/one", "r/two"}); str d; for (int i = 0; i < 3; i++) d += rowpat(8 + kind, i, 8); bool ok = true; size_t f[2] = {1, 2}, g[1] = {1};
    for (int c = 0; c < 2; c++) { str n = c ? "r/two" : "r/one"; if (kind == 0) { Blk b; b.dt = c ? "<u2" : "<i4"; b.nm = c ? 2 : 1; b.fs = {1, 2}; b.rows.assign(3, ""); after[n] = b; } else if (kind == 1) for (int i = 0; i < 3; i++) { rowsnew[n][i] = d.substr(i * 8 + c * 4, 4); after[n].rows[i] = rowsnew[n][i]; } else { after[n].fs.push_back(1); after[n].rows.push_back(""); } }
    ok = lib("records", [&]() { return kind == 0 ? big_file_create_records(&bf, &r, "w+", 2, f) : kind == 1 ? big_file_write_records(&bf, &r, 0, 3, d.data()) : big_file_create_records(&bf, &r, "a+", 1, g); }); big_record_type_clear(&r); if (ok) commit(); return ok; }
// does the opened block show exactly this state (rows being written may be torn)?
static bool matches(BigBlock &b, const str &n, const Blk &w, bool created, str &why) {
    if (w.dt != b.dtype || b.nmemb != w.nm || b.Nfile != (int)w.fs.size() || b.size != total(w.fs)) { why = sprintfs("it has %zu rows in %d files of %s x %d", b.size, b.Nfile, b.dtype, b.nmemb); return false; }
    for (int i = 0; i < b.Nfile; i++) if (b.fsize[i] != w.fs[i]) { why = "its files have other sizes"; return false; }
    auto rn = rowsnew.count(n) ? rowsnew[n] : std::map<size_t, str>();
    for (size_t i = 0; i < b.size; i++) { str s; int rt = rd_at(&b, i, 1, s, w.dt.c_str(), w.nm); const str &old = w.rows[i]; str o0 = old.empty() ? str(rs(w), 0) : old;
        if (rt) { if (!old.empty()) { why = sprintfs("row %zu can not be read: %s", i, errmsg()); return false; } MC_CHECK(errmsg()[0], "no message"); continue; }
        if (rn.count(i)) { for (int k = 0; k < rs(w); k++) if (s[k] != o0[k] && s[k] != rn[i][k]) { why = sprintfs("row %zu is %s, neither %s nor %s", i, hex(s).c_str(), hex(o0).c_str(), hex(rn[i]).c_str()); return false; } }
        else if (s != o0) { why = sprintfs("row %zu is %s, expected %s", i, hex(s).c_str(), hex(o0).c_str()); return false; } }
    (void)created; return true;
}
static std::map<str, str> attrs(BigBlock &b) { size_t c; BigAttr *l = big_block_list_attrs(&b, &c); std::map<str, str> g; for (size_t i = 0; i < c; i++) g[l[i].name] = str(l[i].data, l[i].nmemb * width(l[i].dtype)); return g; }
static bool creating;
static void check(const str &n) {
    bool was = disk.count(n), will = after.count(n); BigBlock b; str w1, w2; mc_transitions();
    if (big_file_open_block(&bf, &b, n.c_str()) != 0) { MC_CHECK(errmsg()[0], "no message"); MC_CHECK(touched.count(n), "block %s, which was not being worked on, can not be opened: %s", n.c_str(), errmsg()); mc_count(1); return; }
    MC_CHECK(was || will, "a block %s appeared", n.c_str());
    auto a = attrs(b); bool m1 = was && matches(b, n, disk[n], false, w1), m2 = touched.count(n) && will && matches(b, n, after[n], true, w2);
    MC_CHECK(m1 || m2, "after the crash block %s is neither what it was (%s) nor what it was to become (%s)", n.c_str(), was ? w1.c_str() : "it did not exist", will ? w2.c_str() : "-");
    const std::map<str, str> none; const auto &a1 = was ? disk[n].attrs : none, &a2 = touched.count(n) && will ? after[n].attrs : a1;
    auto show_all = [&](const std::map<str, str> &x) { str s; for (auto &i : x) s += i.first + "=" + show(i.second) + " "; return s; };
    if (creating) { bool ok = (m1 && a == a1) || (m2 && a == a2); MC_CHECK(ok, "after the crash block %s is opened as a mixture of the old and the new block: attributes %s", n.c_str(), show_all(a).c_str()); mc_count(m2 ? 3 : 2); }
    else { MC_CHECK(a == a1 || a == a2, "after the crash block %s has the attributes '%s', it had '%s' and was to get '%s'", n.c_str(), show_all(a).c_str(), show_all(a1).c_str(), show_all(a2).c_str()); mc_count(a == a1 && m1 ? 2 : 3); }
    OK(big_block_close(&b));
}
static void finish() {
    mc_count(0, mcfs_crashed()); bool rec = mcfs_crashed();
    if (!rec) { touched.clear(); rowsnew.clear(); after = disk; for (auto &h : H) touched.insert(h.first); }   // handles still open: nothing of them is stored
    H.clear(); BigFile keep = bf; OK(big_file_open(&bf, "bf")); std::set<str> all; for (auto &x : disk) all.insert(x.first); for (auto &x : after) all.insert(x.first); for (auto &n : all) check(n);
    char **l; int k; OK(big_file_list(&bf, &l, &k)); std::multiset<str> got; for (int i = 0; i < k; i++) { got.insert(l[i]); free(l[i]); } free(l); for (auto &x : disk) if (!touched.count(x.first)) MC_CHECK(got.count(x.first) == 1, "block %s is listed %zu times after the crash", x.first.c_str(), got.count(x.first)); for (auto &x : got) MC_CHECK(all.count(x), "the list contains '%s' after the crash", x.c_str());
    mc_state(tree_hash(tree("bf")));
    // it can be created again, and is then like new; also the operation can be repeated
    for (auto &n : touched) {   // whatever is there can be grown; the rows added are new ones
        BigBlock b; if (big_file_open_block(&bf, &b, n.c_str()) != 0) continue; size_t g[3] = {1, 1, 2}, N = b.size, w = width(b.dtype) * b.nmemb; str dt = b.dtype, s; int nm = b.nmemb; OK(big_block_grow(&b, 3, g)); OK(big_block_close(&b)); OK(big_file_open_block(&bf, &b, n.c_str())); MC_CHECK(b.size == N + 4, "block %s grown after the crash has %zu rows", n.c_str(), b.size);
        for (size_t i = N; i < N + 4; i++) MC_CHECK(rd_at(&b, i, 1, s, dt.c_str(), nm) != 0 || s == str(w, 0), "row %zu of %s, added after the crash and never written, reads as %s", i, n.c_str(), hex(s).c_str()); OK(big_block_close(&b)); }
    for (auto &n : touched) { BigBlock b; size_t fs[2] = {1, 2}; OK(big_file_create_block(&bf, &b, n.c_str(), "<i2", 1, 2, fs)); auto a = attrs(b); MC_CHECK(a.empty(), "a block created after the crash has attributes"); OK(wr_at(&b, 0, "abcd", "<i2", 1)); OK(big_block_set_attr(&b, "q", "Q", "S1", 1)); OK(big_block_close(&b)); OK(big_file_open_block(&bf, &b, n.c_str())); str s; OK(rd_at(&b, 0, 2, s, "<i2", 1)); MC_CHECK(s == "abcd" && b.size == 3 && attrs(b).size() == 1, "the block created after the crash is wrong"); MC_CHECK(rd_at(&b, 2, 1, s, "<i2", 1) != 0 || s == str(2, 0), "a row never written of the block created after the crash reads as %s", hex(s).c_str()); OK(big_block_close(&b)); }
    OK(big_file_close(&bf)); bf = keep;
}
static void mk(const str &n, const char *dt, int nm, sizes_t fs, int stamp, int na) { BigBlock b; OK(big_file_create_block(&bf, &b, n.c_str(), dt, nm, fs.size(), fs.data())); Blk m; m.dt = dt; m.nm = nm; m.fs = fs; str d; for (size_t i = 0; i < total(fs); i++) { m.rows.push_back(rowpat(stamp, i, rs(m))); d += m.rows.back(); } if (!d.empty()) OK(wr_at(&b, 0, d, dt, nm)); for (int i = 0; i < na; i++) { str k = "a" + std::to_string(i), v = "val" + std::to_string(i * stamp); OK(big_block_set_attr(&b, k.c_str(), v.data(), "S1", v.size())); m.attrs[k] = v; } OK(big_block_close(&b)); disk[n] = m; }
static void setup(int legacy) {
    mc_wipe("bf"); mcfs_reset(); disk.clear(); mem.clear(); H.clear(); touched.clear(); rowsnew.clear(); creating = false; big_file_set_buffer_size(8); OK(big_file_create(&bf, "bf"));
    mk("g/x", "<i4", 1, {2, 0, 1}, 1, 2); mk("g/z", ">u2", 2, {2}, 2, 1); mk("y", "<f8", 1, {1, 1}, 3, 3); mk("top", "<i4", 1, {3, 3, 3, 3}, 4, 0);
    if (legacy) { unlink("bf/g/x/attr-v2"); int nm = 4, ln = 2; put("bf/g/x/attr", str((char *)&nm, 4) + str((char *)&ln, 4) + str("<S1\0\0\0\0\0", 8) + "L1" + "four"); disk["g/x"].attrs = {{"L1", "four"}}; }
    after = disk;
}
static bool step(int op, bool &ok) {    // ok: possible here; returns false after a crash
    const str X = "g/x"; bool open = H.count(X); ok = true; creating = false;
    switch (op) {
    case 0: return open ? op_close(X) : op_open(X);
    case 1: if (!open) break; return op_write(X, 0, mem[X].rows.size(), 21);
    case 2: if (!open) break; return op_write(X, mem[X].rows.size() - 1, 1, 22);
    case 3: if (!open) break; return op_set(X, "b", "new value");
    case 4: if (!open) break; return mem[X].attrs.count("a0") ? op_del(X, "a0") : op_set(X, "a0", "again");
    case 5: if (!open) break; return op_flush(X);
    case 6: if (!open) break; return op_grow(X);
    case 7: if (open) break; creating = true; return op_create(X, "<u2", 3, {1, 2, 1, 1});
    case 8: if (open) break; creating = true; return op_create(X, "<i4", 1, {2, 0, 1});
    case 9: if (open) break; creating = true; return op_create(X, ">f8", 2, {1});
    case 10: { const str N = "g/n/new"; if (H.count(N)) return disk[N].rows[0].empty() ? op_write(N, 0, 3, 30) : op_close(N); if (disk.count(N)) return op_open(N); creating = true; return op_create(N, "<f8", 1, {1, 2}); }
    case 11: creating = !disk.count("r/one"); return op_records(disk.count("r/one") ? 1 : 0);
    case 12: if (!disk.count("r/one")) break; return op_records(2);
    case 13: { begin({}); BigFile f; if (!lib("create the file again", [&]() { return big_file_create(&f, "bf"); })) return false; OK(big_file_close(&f)); return true; }
    }
    ok = false; return true;
}
static void hist() {
    int a = mc_choose(14), b = mc_choose(14), legacy = mc_choose(2); mc_split(); setup(legacy); int depth = mc_thorough() ? 4 : 3;
    for (int d = 0; d < depth; d++) { int op = d == 0 ? a : d == 1 ? b : mc_choose(14, "op"); bool ok; if (!step(op, ok)) break; if (!ok) return; }
    finish();
}
static void longer() {
    static const std::vector<std::vector<int>> hs = {{0, 6, 5, 6, 1, 3, 0, 0, 4, 5, 1, 0}, {0, 3, 5, 4, 5, 3, 4, 0, 7, 0}, {10, 10, 10, 10, 10, 9, 1, 0, 8, 0}, {11, 11, 12, 12, 11, 9}, {7, 1, 0, 8, 1, 0, 9, 1, 3, 0, 7, 2, 0}, {0, 6, 6, 0, 8, 0, 0, 6, 0, 9}, {0, 4, 4, 5, 4, 0, 0, 0}};
    const auto &h = hs[mc_choose((int)hs.size())]; int legacy = mc_choose(2); mc_split(); setup(legacy); for (int op : h) { bool ok; if (!step(op, ok)) break; if (!ok) return; } finish();
}
static void big() {            // attribute files and headers larger than the stdio buffer
    int k = mc_choose(2); mc_split(); setup(0); big_file_set_buffer_size(4096); if (k) { mk("g/x", "<i4", 1, sizes_t(200, 1), 5, 90); } else mk("g/x", "<i4", 1, {3}, 5, 300); after = disk; int what = mc_choose(4);
    if (op_open("g/x") && op_set("g/x", "a7", "changed") && op_write("g/x", 1, 2, 9) && (what != 1 || op_grow("g/x"))) { if (what == 2) op_del("g/x", "a1"); if (what == 3) op_flush("g/x"); if (!mcfs_crashed()) op_close("g/x"); } finish();
}
static void run() { switch (mc_choose(3)) { case 0: return hist(); case 1: return longer(); default: return big(); } }
int main(int c, char **v) { mc_track_module("libbf"); McOpts o; o.property = "C08"; o.run = run; o.deviations = 1; o.worker_init = mcfs_install; o.counters[0] = "crash_points"; o.counters[1] = "blocks_not_openable_after_a_crash"; o.counters[2] = "blocks_as_before"; o.counters[3] = "blocks_as_after"; return mc_main(c, v, o); }
