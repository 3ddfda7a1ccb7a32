// C23: copying, repartitioning, renaming and removing blocks, also when interrupted.
#include "ptr.h"
struct T { const char *dt, *norm; int nm; };
static const std::vector<T> TS = {{"<i4", "<i4", 1}, {">f8", ">f8", 3}, {"|S5", "<S5", 1}, {">u2", ">u2", 2}, {"<c16", "<c16", 1}};
struct Blk { str name; const T *t; sizes_t fs; bool attrs; unsigned stamp; str data() const { str s; size_t rs = width(t->norm) * t->nm; for (size_t r = 0; r < total(fs); r++) s += rowpat(stamp, r, rs); return s; } };
static void mk(const char *file, const Blk &b) {
    BigFile f; BigBlock bb; OK(big_file_create(&f, file)); OK(big_file_create_block(&f, &bb, b.name.c_str(), b.t->dt, b.t->nm, b.fs.size(), b.fs.data())); if (total(b.fs)) MC_CHECK(wr_at(&bb, 0, b.data(), b.t->dt, b.t->nm) == 0, "cannot write: %s", errmsg());
    if (b.attrs) { double x[2] = {2.5, -7}; OK(big_block_set_attr(&bb, "Time", x, "<f8", 2)); OK(big_block_set_attr(&bb, "name", "some text", "S1", 10)); OK(big_block_set_attr(&bb, "i", "\1\2\3\4", ">i4", 1)); OK(big_block_set_attr(&bb, "old", "abcde\1\2\3\4", "<i4", 1)); OK(big_block_remove_attr(&bb, "old")); } OK(big_block_close(&bb)); OK(big_file_close(&f)); }
static str attrs(const str &file, const str &name, str &why) { BigFile f; BigBlock b; str s; if (big_file_open(&f, file.c_str())) { why = errmsg(); return "?"; } if (big_file_open_block(&f, &b, name.c_str())) { why = errmsg(); big_file_close(&f); return "?"; } size_t n; BigAttr *l = big_block_list_attrs(&b, &n); for (size_t i = 0; i < n; i++) s += str(l[i].name) + " " + l[i].dtype + " " + std::to_string(l[i].nmemb) + " " + hex(str(l[i].data, l[i].nmemb * width(l[i].dtype))) + "\n"; big_block_close(&b); big_file_close(&f); return s; }
static str want_attrs(const Blk &b) { double x[2] = {2.5, -7}; return b.attrs ? "Time <f8 2 " + hex(str((char *)x, 16)) + "\ni >i4 1 01020304\nname <S1 10 " + hex(str("some text", 10)) + "\n" : ""; }
// is there a complete block of this content?
static bool complete(const str &file, const str &name, const Blk &b, int nfile, str &why) {
    str dir = file + "/" + name; Header h; str t; if (!slurp(dir + "/header", t) || !parse_header(t, h)) { why = "no header"; return false; } if (h.dtype != b.t->norm || h.nmemb != b.t->nm || total(h.fsize) != total(b.fs)) { why = sprintfs("has %zu rows of %d %s", total(h.fsize), h.nmemb, h.dtype.c_str()); return false; } if (nfile >= 0 && (int)h.fsize.size() != nfile) { why = sprintfs("has %zu files, not %d", h.fsize.size(), nfile); return false; }
    size_t rs = width(b.t->norm) * b.t->nm; str all; for (size_t i = 0; i < h.fsize.size(); i++) { str x; if (!slurp(dir + "/" + fname(i), x)) { why = "file " + fname(i) + " is missing"; return false; } if (x.size() < h.fsize[i] * rs) { why = "file " + fname(i) + " is short"; return false; } x.resize(h.fsize[i] * rs); if (bytesum(x) != h.sum[i]) { why = "the checksum of file " + fname(i) + " is wrong"; return false; } all += x; }
    if (all != b.data()) { why = "other data: " + hex(all); return false; } str a = attrs(file, name, why); if (a != want_attrs(b)) { why = "attributes: " + a + why; return false; } return true; }
static void must(const str &file, const str &name, const Blk &b, int nfile, const str &who) { str why; MC_CHECK(complete(file, name, b, nfile, why), "%s, but block %s: %s", who.c_str(), name.c_str(), why.c_str()); }
static const std::vector<sizes_t> &layouts() { static std::vector<sizes_t> v = {{}, {0}, {1}, {3}, {1, 4}, {2, 0, 3}, {0, 1, 1, 5}}; return v; }
static const Blk &other() { static Blk o = {"other", &TS[1], {2, 1}, true, 7}; return o; }

static strs copyargs; static str dst, dname; static Blk src; static int want;
static bool config_copy(bool few) {
    int ti = mc_choose(few ? 2 : TS.size(), "type"), li = mc_choose(layouts().size(), "layout"); mc_split(); src = {"g/b", &TS[ti], layouts()[li], (ti + li) % 2 == 0, 3}; size_t rows = total(src.fs); int rs = width(src.t->norm) * src.t->nm;
    int n = mc_pick(few ? std::vector<int>{-1, 2} : std::vector<int>{-1, 0, 1, 2, 3, 7}, "-n"); int B = mc_pick(few ? std::vector<int>{rs * 2 + 1, -1} : std::vector<int>{-1, 1, rs, rs * 2 + 1, rs * 4}, "-B"); int where = mc_choose(few ? 3 : 6, "to"); if (!few && B == rs * 4 && where > 1) return false; if (!few && !mc_thorough() && ti > 1 && (B == rs || where == 4 || n == 3)) return false; if (few && B < 0 && (n < 0 || where)) return false;
    copyargs = {"bigfile-copy"}; if (n >= 0) copyargs.insert(copyargs.end(), {"-n", std::to_string(n)}); if (B > 0) copyargs.insert(copyargs.end(), {"-B", std::to_string(B)}); dst = where == 1 || where == 2 ? "d" : "f"; dname = where == 0 ? "copy" : where == 1 ? "g/b" : where == 2 ? "new/copy" : where == 3 ? "other" : where == 4 ? "g/b/c" : "g/b"; if (dst == "d") copyargs.insert(copyargs.end(), {"-f", "d"}); copyargs.insert(copyargs.end(), {"f", "g/b", dname});
    want = n >= 0 && src.fs.size() ? n : src.fs.size(); mc_note("%s: %zu rows %d x %s in %s", join(copyargs).c_str(), rows, src.t->nm, src.t->dt, fmt_sizes(src.fs).c_str()); return true; }
static void setup_copy() { mc_wipe("."); mk("f", src); mk("f", other()); if (dst == "d") { BigFile f; if (dname == "new/copy") mk("d", other()); } }
static void copied(const Res &, bool ok) {
    must("f", "g/b", src, src.fs.size(), "the block has been copied"); if (dname != "other") must("f", "other", other(), 2, "a block has been copied"); if (dst == "d" && dname == "new/copy") must("d", "other", other(), 2, "a block has been copied"); if (ok) must(dst, dname, src, want, "the copy claims success"); }
static void do_copy() {
    if (!config_copy(false)) return; setup_copy(); auto b0 = tree("f/g/b"), b1 = tree("f/other"); Res r = tool(copyargs); bool bad = (total(src.fs) && want == 0) || (dst == "f" && dname == "g/b"); MC_CHECK(r.ok() || r.failed(), "%s %s: %s", join(copyargs).c_str(), r.why().c_str(), r.err.c_str()); MC_CHECK(bad == !r.ok(), "%s %s: %s", join(copyargs).c_str(), r.why().c_str(), r.err.c_str()); copied(r, r.ok());
    auto b2 = tree("f/g/b"); for (auto &x : b0) MC_CHECK(b2.count(x.first) && b2[x.first] == x.second, "%s has changed", x.first.c_str()); if (dname != "other") MC_CHECK(tree("f/other") == b1, "another block has changed"); if (!r.ok()) mc_count(0); mc_state(tree_hash(tree("."))); }
static void do_copy_faults(int mode) {
    if (!config_copy(true)) return; setup_copy(); RunOpts o; o.mode = mode; Res r = tool(copyargs, o); MC_CHECK(r.ok(), "%s %s: %s", join(copyargs).c_str(), r.why().c_str(), r.err.c_str()); copied(r, true); int np = r.points; MC_CHECK(np < 1000, "too many calls"); std::vector<int> no(shd->nopts, shd->nopts + np); strs nm; for (int i = 0; i < np; i++) nm.push_back(shd->name[i]);
    int at = mc_choose(np, "call"), kind = 1 + mc_choose(no[at] - 1, mode == MCFS_FAULT ? "fault" : "crash"); mc_note("%s %d of call %d (%s)", mode == MCFS_FAULT ? "fault" : "crash", kind, at, nm[at].c_str()); setup_copy(); o.at = at; o.kind = kind; r = tool(copyargs, o);
    if (mode == MCFS_CRASH) { copied(r, false); mc_count(1); } else { MC_CHECK(r.ok() || r.failed(), "%s %s after a failing %s: %s", join(copyargs).c_str(), r.why().c_str(), nm[at].c_str(), r.err.c_str()); copied(r, r.ok()); mc_count(r.ok() ? 3 : 2); } mc_state(tree_hash(tree("."), r.status)); }
// ---- the scripts
static bool same_call(str a, str b) { auto d = [](str &x) { x.erase(std::remove_if(x.begin(), x.end(), isdigit), x.end()); }; d(a); d(b); return a == b; }     // names of temporary files have process numbers in them
static str base(const str &n) { return n.substr(n.rfind('/') == str::npos ? 0 : n.rfind('/') + 1); }
static void do_scripts() {
    int what = mc_choose(3, "script"), shape = mc_choose(mc_thorough() ? 6 : 4, "shape"), arg = mc_choose(what == 0 ? 5 : 4); mc_split(); static const std::vector<sizes_t> ls = {{3}, {1, 4}, {}, {2, 0, 3}, {0, 2}, {1, 1, 1, 1}}; src = {shape % 2 ? "g/b" : "b", &TS[shape % TS.size()], ls[shape], shape != 2, 3}; auto setup = [&] { mc_wipe("."); mk("f", src); mk("f", other()); };
    str &n = src.name, bak = n + "-REPBAK"; strs a; bool bad = false; int nf = 0;
    // 0: repartition; 1: rename; 2: remove
    if (what == 0) { nf = arg < 3 ? arg + 1 : arg == 3 ? 0 : 2; a = {"bigfile-repartition", "f", std::to_string(nf), arg == 4 ? "missing" : n}; if (arg == 1) a.insert(a.begin() + 1, "-v"); bad = arg == 4 || (nf == 0 && src.fs.size()); if (src.fs.empty()) nf = 0; }
    if (what == 1) { static const strs to = {"c", "g2/c", "other", "n"}; if (arg == 3) { a = {"bigfile-rename", "f", "missing", "c"}; bad = true; } else { a = {"bigfile-rename", "f", n, to[arg]}; bad = arg > 0; } }
    if (what == 2) { a = {"bigfile-rm", "f", arg == 1 ? "missing" : n}; if (arg == 2) a.push_back("missing"); if (arg == 3) a.insert(a.begin() + 2, "missing"); bad = arg > 0; }
    setup(); mc_note("%s", join(a).c_str()); auto t0 = tree("f/other"); Traced r = traced(a); MC_CHECK(bad ? r.failed() : r.ok(), "%s has exit status %d: %s", join(a).c_str(), r.status, r.out.c_str());
    auto check = [&](const Traced &r, const char *when) {
        str who = join(a) + when, why, why2; MC_CHECK(tree("f/other") == t0, "%s changes another block: %s", who.c_str(), r.out.c_str());
        if (what == 0 && arg != 4) { if (r.ok()) { must("f", n, src, nf, who + " claims success"); MC_CHECK(!exists("f/" + bak), "%s leaves a backup", who.c_str()); } else MC_CHECK(complete("f", n, src, -1, why) || complete("f", bak, src, -1, why2), "after %s, the block %s, its backup %s: %s", who.c_str(), why.c_str(), why2.c_str(), r.out.c_str()); }
        else if (what == 1 || what == 0) { bool moved = what == 1 && arg == 0; if (r.ok()) { must("f", moved ? "c" : n, src, -1, who + " claims success"); MC_CHECK(!moved || !exists("f/" + n), "%s claims success, but the old name is there", who.c_str()); } else MC_CHECK(complete("f", n, src, -1, why) || (moved && complete("f", "c", src, -1, why2)), "after %s, the block is gone: %s: %s", who.c_str(), why.c_str(), r.out.c_str()); }
        else { if (r.ok() || (arg > 1 && !r.hit)) MC_CHECK(!exists("f/" + n), "%s has status %d, and the block is still there", who.c_str(), r.status); if (arg == 1) must("f", n, src, -1, who); } };
    check(r, ""); if (bad) { mc_count(0); mc_state(tree_hash(tree("."), 5)); return; }
    int np = r.calls.size(); strs calls = r.calls; if (!np) return; int at = mc_choose(np, "call"), act = 1 + mc_choose(4, "what happens"); mc_note("%s at %s", act == ACT_KILL_ALL ? "everything is killed" : act == ACT_KILL ? "the process is killed" : act == ACT_EIO ? "I/O error" : "no space", calls[at].c_str()); setup(); r = traced(a, "", at, act); MC_CHECK(r.hit && (int)r.calls.size() > at && same_call(r.calls[at], calls[at]), "the script does something else: %s, not %s", r.calls.size() > at ? r.calls[at].c_str() : "nothing", calls[at].c_str());
    check(r, sprintfs(" %s %s", act <= ACT_KILL ? "killed before" : "with a failing", calls[at].c_str()).c_str()); mc_count(act <= ACT_KILL ? 1 : r.ok() ? 3 : 2); mc_state(tree_hash(tree("."), r.status)); }
static void do_many() {      // several blocks at once; a fault in one of them
    int shape = mc_choose(3, "blocks"), all = mc_choose(2), nf = 1 + mc_choose(3), trouble = mc_choose(4); mc_split(); std::vector<Blk> bs = {{"g/b", &TS[0], {1, 4}, true, 3}, {"other", &TS[1], {2, 1}, true, 7}}; if (shape > 0) bs.push_back({"a", &TS[2], {}, true, 4}); if (shape > 1) bs.push_back({"g/d", &TS[3], {2, 0, 3}, false, 5});
    auto setup = [&] { mc_wipe("."); for (auto &b : bs) mk("f", b); }; strs a = {"bigfile-repartition", "f", std::to_string(nf)}; if (!all) for (auto &b : bs) a.push_back(b.name); int miss = 0; 
    if (trouble == 1) { if (all) return; a.insert(a.begin() + 3 + mc_choose(bs.size() + 1), "missing"); } mc_note("%s%s", join(a).c_str(), trouble == 2 ? ", an old backup is there" : trouble == 3 ? ", a block inside a block" : "");
    auto prep = [&] { setup(); if (trouble == 2) mk("f", {"g/b-REPBAK", &TS[4], {6}, false, 9}); if (trouble == 3) mk("f", {"g/b/in", &TS[4], {6}, false, 9}); }; if (all && trouble == 2) return;
    auto check = [&](const Traced &r, const char *when, const str &hurt) { str who = join(a) + when; for (auto &b : bs) { str why, why2; if (r.ok() || (!r.hit && trouble < 2) || (!hurt.empty() && b.name != hurt) || (hurt.empty() && !r.hit && b.name != "g/b")) must("f", b.name, b, b.fs.size() ? nf : 0, who); else MC_CHECK(complete("f", b.name, b, -1, why) || complete("f", b.name + "-REPBAK", b, -1, why2), "after %s, block %s: %s, its backup: %s", who.c_str(), b.name.c_str(), why.c_str(), why2.c_str()); }
        Blk x = {"", &TS[4], {6}, false, 9}; if (trouble == 2) must("f", "g/b-REPBAK", x, 1, who); if (trouble == 3) { str why; MC_CHECK(complete("f", "g/b/in", x, -1, why) || complete("f", "g/b-REPBAK/in", x, -1, why), "%s removes the block inside: %s", who.c_str(), why.c_str()); } };
    prep(); Traced r = traced(a, "g/b"); MC_CHECK(trouble ? r.failed() || (all && trouble == 3 && r.ok()) : r.ok(), "%s has exit status %d: %s", join(a).c_str(), r.status, r.out.c_str()); check(r, "", ""); if (trouble) { mc_count(0); return; } int np = r.calls.size(); strs calls = r.calls; if (!np || !mc_choose(2)) return;
    int at = mc_choose(np, "call"), act = mc_pick(std::vector<int>{ACT_KILL, ACT_EIO}, "what happens"); mc_note("%s at %s", act == ACT_KILL ? "the process is killed" : "I/O error", calls[at].c_str()); prep(); r = traced(a, "g/b", at, act); MC_CHECK(r.hit && (int)r.calls.size() > at && same_call(r.calls[at], calls[at]), "the script does something else"); check(r, sprintfs(" %s %s", act <= ACT_KILL ? "killed before" : "with a failing", calls[at].c_str()).c_str(), "g/b"); mc_count(act <= ACT_KILL ? 1 : r.ok() ? 3 : 2); mc_state(tree_hash(tree("."), r.status)); }
static void run() { mc_wipe("."); switch (mc_choose(5, "part")) { case 0: do_copy(); break; case 1: do_copy_faults(MCFS_FAULT); break; case 2: do_copy_faults(MCFS_CRASH); break; case 3: do_scripts(); break; case 4: do_many(); break; } }
int main(int c, char **v) { tools_init(v[0]); tool_sym("bigfile-copy"); McOpts o; o.property = "C23"; o.run = run; o.counters[0] = "refused requests"; o.counters[1] = "runs that were killed"; o.counters[2] = "runs that failed after a fault"; o.counters[3] = "faults without consequence"; return mc_main(c, v, o); }
