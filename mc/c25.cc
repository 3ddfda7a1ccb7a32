// C25: the command line tools against the library and the files.
#include "ptr.h"
struct T { const char *dt, *norm; };
static const std::vector<T> TS = {{"<i4", "<i4"}, {">i8", ">i8"}, {"|u1", "<u1"}, {">f4", ">f4"}, {"<f8", "<f8"}, {"<c8", "<c8"}, {">c16", ">c16"}, {"S1", "<S1"}, {"<S7", "<S7"}, {">u2", ">u2"}, {"<u8", "<u8"}, {"<i1", "<i1"}, {"<b1", "<b1"}, {">S16", ">S16"}};
static bool numeric(const T &t) { return t.norm[1] != 'S'; }
static bool formatted(const str &n) { static const std::set<str> ok = {"i1", "u1", "b1", "i4", "i8", "u4", "u8", "f4", "f8", "c8", "c16"}; return n[1] == 'S' || ok.count(n.substr(1)); }
static str value(const str &t, size_t row, int k, unsigned stamp) {      // bytes of an element, never NaN
    int w = width(t); str s(w, 0); for (int i = 0; i < w; i++) s[i] = pat(stamp, row, k * 7 + i); if (t[1] == 'S') for (auto &c : s) c = 'a' + (unsigned char)c % 26; if (t[1] == 'b') s[0] = row & 1;
    if (t[1] == 'f' || t[1] == 'c') { int u = t[1] == 'c' ? w / 2 : w; s.clear(); for (int j = 0; j < w / u; j++) { double d = (row + 1) * 1.25 - k * 0.5 + j; str b; if (u == 4) { float f = d; b.assign((char *)&f, 4); } else b.assign((char *)&d, 8); if (t[0] == '>') std::reverse(b.begin(), b.end()); s += b; } }
    return s; }
static str content(const str &t, int nm, size_t rows, unsigned stamp = 1) { str s; for (size_t r = 0; r < rows; r++) for (int k = 0; k < nm; k++) s += value(t, r, k, stamp); return s; }
static str bigdata(unsigned sum) { str s; while (sum) { unsigned k = std::min(sum, 255u); s += (char)k; sum -= k; } while (s.size() % 8) s += '\0'; return s; }
static sizes_t split(size_t rows, int nf) { sizes_t v(nf); for (int i = 0; i < nf; i++) v[i] = rows * (i + 1) / nf - rows * i / nf; if (nf == 3 && rows > 1) { v[0] += v[1]; v[1] = 0; } return v; }
static void mk(const char *file, const char *block, const T &t, int nm, size_t rows, int nf, unsigned stamp = 1, bool attrs = false) {
    BigFile f; BigBlock b; OK(big_file_create(&f, file)); sizes_t fs = split(rows, nf); OK(big_file_create_block(&f, &b, block, t.dt, nm, nf, fs.data()));
    if (rows) MC_CHECK(wr_at(&b, 0, content(t.norm, nm, rows, stamp), t.dt, nm) == 0, "cannot write: %s", errmsg());
    if (attrs) { double x[2] = {2.5, -7}; OK(big_block_set_attr(&b, "Time", x, "<f8", 2)); OK(big_block_set_attr(&b, "name", "some text", "S1", 10)); short s = 0; OK(big_block_set_attr(&b, "i", "\1\2\3\4", ">i4", 1)); }
    OK(big_block_close(&b)); OK(big_file_close(&f)); }
static str fmt1(const str &t, const char *p, const char *fmt = NULL) { if (t.substr(1) == "S1") return *p ? str(p, 1) : ""; char b[900]; big_file_dtype_format(b, t.c_str(), p, fmt); return b; }
static void good(const strs &a, const Res &r) { MC_CHECK(r.ok(), "%s %s: %s", join(a).c_str(), r.why().c_str(), r.err.c_str()); }
static void bad(const strs &a, const Res &r, const char *w) { MC_CHECK(r.failed(), "%s %s though %s", join(a).c_str(), r.ok() ? "claims success" : r.why().c_str(), w); mc_count(0); }
static strs with(const strs &a, const strs &b) { strs x = a; x.insert(x.end(), b.begin(), b.end()); return x; }

// every system call failing in every way: the tool must either fail, or have done its job (as 'done' says)
template <class S, class D> static void faults(const strs &args, RunOpts o, S setup, D done) {
    o.mode = MCFS_FAULT; o.at = -1; setup(); Res r = tool(args, o); good(args, r); done(r); int np = r.points; MC_CHECK(np < 1000, "too many calls"); std::vector<int> no(shd->nopts, shd->nopts + np); std::vector<str> nm; for (int i = 0; i < np; i++) nm.push_back(shd->name[i]);
    if (!np) return; int at = mc_choose(np, "call"), kind = 1 + mc_choose(no[at] - 1, "fault"); mc_note("%s, fault %d of call %d (%s)", join(args).c_str(), kind, at, nm[at].c_str());
    setup(); o.at = at; o.kind = kind; r = tool(args, o); MC_CHECK(r.faults == 1, "no fault: %s %s (%d)", r.why().c_str(), r.err.c_str(), r.points); MC_CHECK(r.ok() || r.failed(), "%s %s after a failing %s: %s", args[0].c_str(), r.why().c_str(), nm[at].c_str(), r.err.c_str());
    if (r.ok()) { mc_count(1); done(r); } else mc_count(2); mc_state(mc_hash_str(r.out + r.err, r.status)); }

static void do_cat() {
    const T &t = mc_pick(TS, "type"); int nm = mc_choose(2) ? 3 : 1; size_t rows = mc_choose(mc_thorough() ? 7 : 5, "rows"); int nf = 1 + mc_choose(3, "files"); mc_split();
    bool text = mc_choose(2); if (text && !formatted(t.norm)) return; int o = mc_choose(rows + 1, "offset") - 1; int c = mc_choose(rows + 3, "count") - 1; int rs = width(t.norm) * nm, B = mc_pick(std::vector<int>{-1, 1, rs, 2 * rs + 1, rs * 3, rs * 100}, "buffer"); bool f = text && !mc_choose(2) && (t.norm[1] == 'f' || (t.norm[1] == 'i' && width(t.norm) > 1)); int full = mc_choose(2, "/dev/full"); if (full && (B > 1 || o > 0)) return; if (!mc_thorough()) { bool few = &t - &TS[0] > 3; if (few && (B > 0 && B != rs) || few && nf == 2 || nf > 1 && rows < 2 || full && nf > 1 || few && rows == 3 || B == rs * 100 && nf > 1) return; }
    mk("f", "g/b", t, nm, rows, nf); strs a = {"bigfile-cat"}; if (!text) a.push_back("-b"); if (o >= 0) a = with(a, {"-o", std::to_string(o)}); if (c >= 0) a = with(a, {"-c", std::to_string(c)}); if (B > 0) a = with(a, {"-B", std::to_string(B)}); const char *fm = t.norm[1] == 'f' ? "%012.3f" : width(t.norm) == 8 ? "%012lX" : "%08X"; if (f) a = with(a, {"-f", fm}); a = with(a, {"f", "g/b"}); mc_note("%s: %zu x %d %s in %d files%s", join(a).c_str(), rows, nm, t.dt, nf, full ? ", no space" : "");
    str all = content(t.norm, nm, rows); size_t s = o < 0 ? 0 : o, e = c < 0 ? rows : std::min(rows, s + c); str want; for (size_t r = s; r < e; r++) { if (!text) { want += all.substr(r * rs, rs); continue; } for (int k = 0; k < nm; k++) want += fmt1(t.norm, &all[r * rs + k * rs / nm], f ? fm : NULL) + " "; want += "\n"; }
    auto before = tree("f"); RunOpts ro; if (full) ro.out_path = "/dev/full"; Res r = tool(a, ro); MC_CHECK(tree("f") == before, "bigfile-cat changes the file"); if (full && !want.empty()) { bad(a, r, "the device is full"); return; } good(a, r); if (!full) MC_CHECK(r.out == want, "%s prints '%s', expected '%s'", join(a).c_str(), show(r.out).c_str(), show(want).c_str()); mc_state(mc_hash_str(r.out, rows * 100 + nf)); }
static void do_cat_faults() {
    int dt = mc_choose(3), nf = 1 + mc_choose(2), B = mc_choose(2), text = mc_choose(2); const T &t = TS[dt]; mc_split(); strs a = {"bigfile-cat"}; if (!text) a.push_back("-b"); if (B) a = with(a, {"-B", "16"}); a = with(a, {"f", "g/b"}); str all = content(t.norm, 2, 5), want; int w = width(t.norm); if (!text) want = all; else for (int r = 0; r < 5; r++) { for (int k = 0; k < 2; k++) want += fmt1(t.norm, &all[(r * 2 + k) * w]) + " "; want += "\n"; }
    mk("f", "g/b", t, 2, 5, nf); faults(a, {}, [] {}, [&](Res &r) { MC_CHECK(r.out == want, "%s prints '%s' and claims success, expected '%s'", join(a).c_str(), show(r.out).c_str(), show(want).c_str()); }); }
static void check_created(const str &dir, const str &norm, int nm, const str &data, const char *who) {
    Header h; MC_CHECK(parse_header(slurp(dir + "/header"), h), "%s: no valid header", who); size_t rs = width(norm) * nm, rows = data.size() / rs; MC_CHECK(h.dtype == norm && h.nmemb == nm && total(h.fsize) == rows, "%s stores %zu rows of %d %s, expected %zu of %d %s", who, total(h.fsize), h.nmemb, h.dtype.c_str(), rows, nm, norm.c_str()); str got; for (size_t i = 0; i < h.fsize.size(); i++) { str x = slurp(dir + "/" + fname(i)); MC_CHECK(x.size() == h.fsize[i] * rs && h.sum[i] == bytesum(x), "%s: file %zu has %zu bytes with sum %u, the header says %zu rows and %u", who, i, x.size(), bytesum(x), h.fsize[i], h.sum[i]); got += x; } MC_CHECK(got == data, "%s stores %s, expected %s", who, hex(got).c_str(), hex(data).c_str()); }
static void do_create() {
    const T &t = mc_pick(TS, "type"); int nm = mc_choose(3); size_t rows = mc_choose(6, "rows"); mc_split(); int rs = width(t.norm) * std::max(nm, 1), B = mc_pick(std::vector<int>{-1, 0, 1, rs, 2 * rs + 1, rs * 3, rs * 100}, "buffer"); int ex = mc_choose(3, "existing"), err = mc_choose(3, "input"); if (err && (ex || B > 1)) return; if (B < 0 && rows > 3) return; if (!mc_thorough()) { bool few = &t - &TS[0] > 3; if (few && (ex || B == 0 || B > 1 && B != 2 * rs + 1) || ex && B != 1 && B != 2 * rs + 1) return; }
    strs a = {"bigfile-create"}; if (nm) a = with(a, {"-n", std::to_string(nm)}); else nm = 1; if (B >= 0) a = with(a, {"-B", std::to_string(B)}); a = with(a, {"f", "g/b", t.dt}); str data = content(t.norm, nm, rows); mc_note("%s: %zu rows%s", join(a).c_str(), rows, ex == 1 ? ", an existing file" : ex ? ", an existing block" : "");
    if (ex) mk("f", "other", TS[0], 2, 3, 2, 5, true); if (ex == 2) mk("f", "g/b", TS[3], 2, 7, 2, 5, true); auto before = tree("f/other"); RunOpts o; o.in = data; if (err == 1) o.in_path = "."; if (err == 2) put("f", "");
    Res r = tool(a, o); if (err) { bad(a, r, err == 1 ? "the input cannot be read" : "the file cannot be created"); return; } good(a, r); check_created("f/g/b", t.norm, nm, data, "bigfile-create"); MC_CHECK(tree("f/other") == before, "another block has changed"); mc_state(tree_hash(tree("f"), 3)); }
static void do_create_faults() {
    int dt = mc_choose(3), B = mc_choose(2), ex = mc_choose(2); size_t rows = mc_choose(4); mc_split(); const T &t = TS[dt]; strs a = {"bigfile-create", "-n", "2"}; if (B) a = with(a, {"-B", "16"}); a = with(a, {"f", "g/b", t.dt}); RunOpts o; o.in = content(t.norm, 2, rows);
    faults(a, o, [&] { mc_wipe("."); if (ex) mk("f", "g/b", TS[3], 2, 7, 2, 5, true); }, [&](Res &) { check_created("f/g/b", t.norm, 2, o.in, "bigfile-create"); }); }
static void do_ls() {
    int shape = mc_choose(6, "tree"), l = mc_choose(2), one = mc_choose(2); mc_split(); int full = mc_choose(2); struct B { const char *n; int t, nm; size_t rows; int nf; }; static const std::vector<std::vector<B>> sh = {{}, {{"b", 0, 1, 3, 2}}, {{"b", 1, 3, 2, 1}, {"a", 8, 1, 0, 0}}, {{"g/b", 3, 2, 5, 3}, {"g/h/c", 7, 1, 4, 1}, {"z", 2, 1, 0, 2}}, {{"g/b", 3, 2, 5, 3}, {"a-very-long-name-of-a-block-in-the-file", 4, 1, 1, 1}, {"ga", 5, 1, 2, 2}}, {{"0/Position", 4, 3, 4, 3}, {"0/Velocity", 3, 3, 4, 3}, {"1/Position", 4, 3, 2, 3}, {"10/Position", 4, 3, 0, 3}}};
    auto &bs = sh[shape]; { BigFile f; OK(big_file_create(&f, "f")); OK(big_file_close(&f)); } std::map<str, B> m; for (auto &b : bs) { mk("f", b.n, TS[b.t], b.nm, b.rows, b.nf, 1 + b.t); m.insert({b.n, b}); }
    mkdirs("f/empty/dir"); put("f/empty/file", "x"); auto line = [&](const B &b, const str &out) { char n[200], d[20], path[500]; int nm, nf; long sz; unsigned sum; if (!l) { MC_CHECK(out == b.n, "bigfile-ls prints '%s' for block %s", out.c_str(), b.n); return; } MC_CHECK(sscanf(out.c_str(), "%199s %19s %d %ld %u %d %499s", n, d, &nm, &sz, &sum, &nf, path) == 7, "cannot read '%s'", out.c_str()); str all = content(TS[b.t].norm, b.nm, b.rows, 1 + b.t); MC_CHECK(str(n) == b.n && str(d) == TS[b.t].norm && nm == b.nm && sz == (long)b.rows && nf == b.nf && sum == sysv(bytesum(all)) && str(path) == "f/" + str(b.n), "bigfile-ls prints '%s' for %s: %zu rows of %d %s in %d files, sum %u", out.c_str(), b.n, b.rows, b.nm, TS[b.t].norm, b.nf, sysv(bytesum(all))); };
    strs a = {"bigfile-ls"}; if (l) a.push_back("-l"); a.push_back("f"); RunOpts o; if (full) o.out_path = "/dev/full"; if (!one) { Res r = tool(a, o); if (full && bs.size()) { bad(a, r, "the device is full"); return; } good(a, r); if (full) return; size_t p = 0; std::set<str> seen; while (p < r.out.size()) { size_t e = r.out.find('\n', p); str x = r.out.substr(p, e - p); p = e + 1; str n = x.substr(0, x.find(' ')); MC_CHECK(m.count(n) && seen.insert(n).second, "bigfile-ls lists '%s'", x.c_str()); line(m.at(n), x); } MC_CHECK(seen.size() == m.size(), "bigfile-ls lists %zu of %zu blocks:\n%s", seen.size(), m.size(), r.out.c_str()); mc_state(mc_hash_str(r.out)); return; }
    strs names; for (auto &x : m) names.push_back(x.first); names.push_back("missing"); names.push_back("empty/dir"); str n = mc_pick(names); a.push_back(n); Res r = tool(a, o); if (!m.count(n)) { bad(a, r, "there is no such block"); return; } if (full) { bad(a, r, "the device is full"); return; } good(a, r); MC_CHECK(!r.out.empty() && r.out.back() == '\n', "'%s'", r.out.c_str()); r.out.pop_back(); line(m.at(n), r.out); mc_state(mc_hash_str(r.out)); }
struct A { str name, dt; int nm; str data; };
static std::map<str, A> attrs_of(const char *file, const char *block) { BigFile f; BigBlock b; OK(big_file_open(&f, file)); OK(big_file_open_block(&f, &b, block)); size_t n; BigAttr *l = big_block_list_attrs(&b, &n); std::map<str, A> m; for (size_t i = 0; i < n; i++) m[l[i].name] = {l[i].name, l[i].dtype, l[i].nmemb, str(l[i].data, l[i].nmemb * width(l[i].dtype))}; OK(big_block_close(&b)); OK(big_file_close(&f)); return m; }
static bool same(const std::map<str, A> &a, const std::map<str, A> &b) { if (a.size() != b.size()) return false; for (auto &x : a) { auto i = b.find(x.first); if (i == b.end() || i->second.dt != x.second.dt || i->second.nm != x.second.nm || i->second.data != x.second.data) return false; } return true; }
static str avals(const A &a) { str s; int w = width(a.dt); for (int i = 0; i < a.nm; i++) s += fmt1(a.dt, a.data.data() + i * w) + (a.dt[1] != 'S' && i != a.nm - 1 ? " " : ""); return s; }
static str squeeze(const str &s) { str r; for (char c : s) if (c != ' ' || (!r.empty() && r.back() != ' ')) r += c; return r; }
static void do_getattr() {
    static std::vector<T> ts = TS; if (ts.size() == TS.size()) ts.push_back({"<S300", "<S300"}); const T &t = mc_pick(ts, "type"); int nm = mc_choose(4) + 1, extra = mc_choose(3); mc_split(); if (!formatted(t.norm)) return; int how = mc_choose(7), l = mc_choose(2), full = mc_choose(2); str data = content(t.norm, nm, 1, 4);
    { BigFile f; BigBlock b; OK(big_file_create(&f, "f")); OK(big_file_create_block(&f, &b, "g/b", NULL, 0, 0, NULL)); OK(big_block_set_attr(&b, "attr", data.data(), t.dt, nm)); if (extra > 0) OK(big_block_set_attr(&b, "text", "hello world", "S1", 11)); if (extra > 1) { int x[2] = {5, -6}; OK(big_block_set_attr(&b, "a-name-longer-than-twenty-letters", x, "i4", 2)); } OK(big_block_close(&b)); OK(big_file_close(&f)); }
    auto as = attrs_of("f", "g/b"); strs a = {"bigfile-get-attr"}; if (l) a.push_back("-l"); a = with(a, {"f", how == 5 ? "g" : "g/b"}); strs names; if (how == 1) names = {"attr"}; if (how == 2) names = {"attr", "text"}; if (how == 3) names = {"nothing"}; if (how == 4) names = {"attr", "att"}; if (how == 6) names = {"text", "text"}; if ((how == 2 || how == 6) && !extra) return; a = with(a, names); RunOpts o; if (full) o.out_path = "/dev/full";
    mc_note("%s: %d x %s", join(a).c_str(), nm, t.dt); auto before = tree("f"); Res r = tool(a, o); MC_CHECK(tree("f") == before, "bigfile-get-attr changes the file"); if (how >= 3 && how <= 5) { bad(a, r, "there is no such attribute or block"); return; } if (full) { bad(a, r, "the device is full"); return; } good(a, r);
    str want; if (how == 0) { for (auto &x : as) names.push_back(x.first); } for (auto &n : names) { auto &x = as[n]; if (names.size() == 1 && how && !l) want += avals(x) + "\n"; else want += sprintfs("%-20s %s %3d  [ ", x.name.c_str(), x.dt.c_str(), x.nm) + avals(x) + " ]\n"; } MC_CHECK(squeeze(r.out) == squeeze(want), "%s prints '%s', expected '%s'", join(a).c_str(), show(r.out).c_str(), show(want).c_str()); mc_state(mc_hash_str(r.out)); }
struct V { const char *dt; strs in; str data; bool ok; };
template <class X> static str le(X x) { return str((char *)&x, sizeof x); }
static str be(str s, int w) { for (size_t i = 0; i < s.size(); i += w) std::reverse(s.begin() + i, s.begin() + i + w); return s; }
static const std::vector<V> &values() { static std::vector<V> v; if (v.empty()) v = {{"i4", {"12"}, le(12), true}, {"<i4", {"-3", "0", "2147483647"}, le(-3) + le(0) + le(2147483647), true}, {">i4", {"77", "-1"}, be(le(77) + le(-1), 4), true}, {"i8", {"9007199254740993", "-9"}, le(9007199254740993l) + le(-9l), true}, {">u8", {"18446744073709551615"}, le(~0ul), true}, {"<u4", {"4294967295", "1"}, le(~0u) + le(1), true}, {"f8", {"2.5", "-1e300"}, le(2.5) + le(-1e300), true}, {">f4", {"0.5", "3"}, be(le(.5f) + le(3.f), 4), true}, {"f4", {"1.25"}, le(1.25f), true}, {"c8", {"1.5 + 2 I"}, le(1.5f) + le(2.f), true}, {">c16", {"1.5 + 2.5 I", "0 + 1 I"}, be(le(1.5) + le(2.5) + le(0.) + le(1.), 8), true}, {"S1", {"text"}, str("text", 5), true}, {"S1", {""}, str("", 1), true}, {"S1", {str(200, 'x')}, str(200, 'x') + str(1, 0), true},
    {"i4", {"x"}, "", false}, {"f8", {"1", ""}, "", false}, {"i4", {"1", "2", "y"}, "", false}, {"q9", {"1"}, "", false}, {"", {"1"}, "", false}, {NULL, {"1"}, "", false}}; return v; }
static void do_setattr() {
    int prev = mc_choose(6, "existing"), vi = mc_choose(values().size(), "value"); mc_split(); const V &v = values()[vi]; int n = mc_choose(4, "-n"), force = mc_choose(2), miss = mc_choose(3), which = mc_choose(2); if (miss && (n || force || which)) return;
    mk("f", "g/b", TS[0], 2, 3, 2, 1, prev >= 1); str name = which ? "Time" : "new"; BigFile f; BigBlock b; if (prev >= 2) { OK(big_file_open(&f, "f")); OK(big_file_open_block(&f, &b, "g/b")); OK(big_block_remove_attr(&b, "Time")); int q[3] = {1, 2, 3}; double d = 9; if (prev == 2) OK(big_block_set_attr(&b, "Time", q, "i4", 3)); if (prev == 3) OK(big_block_set_attr(&b, "Time", "TEXT", "S1", 5)); if (prev == 4) OK(big_block_set_attr(&b, "Time", &d, "<f8", 1)); OK(big_block_close(&b)); OK(big_file_close(&f)); }
    auto as = attrs_of("f", "g/b"); auto before = tree("f"); bool old = as.count(name); strs a = {"bigfile-set-attr"}; if (force) a.push_back("-f"); if (v.dt) a = with(a, {"-t", v.dt}); int cnt = v.dt && strstr(v.dt, "S") ? v.in[0].size() + 1 : v.in.size(); if (n) a = with(a, {"-n", std::to_string(n == 1 ? cnt : n == 2 ? cnt + 1 : std::max(cnt - 1, 1))}); int given = n == 0 ? 0 : n == 1 ? cnt : n == 2 ? cnt + 1 : std::max(cnt - 1, 1); a = with(a, {"--", miss == 1 ? "none" : "f", miss == 2 ? "g" : "g/b", name}); a = with(a, v.in); mc_note("%s", join(a).c_str());
    bool ok = v.ok && !miss; if (v.dt && old && !force) { auto &x = as[name]; T t; str nd = v.dt; if (nd[0] != '<' && nd[0] != '>') nd = "<" + nd; if (x.dt.substr(1) != nd.substr(1) && ok) { ok = true; if (!given && x.nm != cnt) ok = false; } else if (!given && x.nm != cnt) ok = false; } if (given && given != cnt) ok = false; bool defined = v.dt || miss || !old; 
    Res r = tool(a); MC_CHECK(r.ok() || r.failed(), "%s %s: %s", join(a).c_str(), r.why().c_str(), r.err.c_str());
    auto now = attrs_of("f", "g/b"); auto after = tree("f"); for (auto &x : before) if (x.first != "f/g/b/attr-v2") MC_CHECK(after.count(x.first) && (after[x.first] == x.second || x.first == "f/g/b/header"), "%s has changed", x.first.c_str()); check_created("f/g/b", "<i4", 2, content("<i4", 2, 3), "bigfile-set-attr");
    if (r.failed()) { MC_CHECK(same(as, now), "a failing bigfile-set-attr changes the attributes"); MC_CHECK(!ok || !defined || (old && !force), "%s %s: %s", join(a).c_str(), r.why().c_str(), r.err.c_str()); mc_count(0); }
    else { if (!v.dt) { if (!old || force) { MC_CHECK(old && !miss, "%s claims success without a type", join(a).c_str()); } } else MC_CHECK(ok, "%s claims success", join(a).c_str()); if (v.dt) { str nd = v.dt; if (nd[0] != '<' && nd[0] != '>') nd = "<" + nd; MC_CHECK(now.count(name) && now[name].dt == nd && now[name].nm == cnt && now[name].data == v.data, "%s stores %s x %d: %s, expected %s", join(a).c_str(), now[name].dt.c_str(), now[name].nm, hex(now[name].data).c_str(), hex(v.data).c_str()); } else { auto &x = now[name]; MC_CHECK(x.dt == as[name].dt && (x.dt[1] == 'f' ? x.data == le(1.) : x.dt[1] == 'i' ? x.data == le(1) : x.data == str("1", 2)), "%s stores %s", join(a).c_str(), hex(x.data).c_str()); }
        auto x = as, y = now; x.erase(name); y.erase(name); MC_CHECK(same(x, y), "other attributes have changed"); } mc_state(tree_hash(after, r.status)); }
static void do_attr_faults() {
    int set = mc_choose(2), shape = mc_choose(3); mc_split(); auto setup = [&] { mc_wipe("."); mk("f", "g/b", TS[0], 2, 3, 2, 1, shape > 0); }; setup(); auto as = attrs_of("f", "g/b");
    if (set) { strs a = {"bigfile-set-attr", "-f", "-t", "f8", "--", "f", "g/b", shape == 2 ? "Time" : "new", "4.5", "-8"}; faults(a, {}, setup, [&](Res &) { auto now = attrs_of("f", "g/b"); str n = a[7]; MC_CHECK(now[n].data == le(4.5) + le(-8.) && now[n].nm == 2, "bigfile-set-attr claims success and stores %s", hex(now[n].data).c_str()); auto x = as; x.erase(n); now.erase(n); MC_CHECK(same(x, now), "other attributes have changed"); check_created("f/g/b", "<i4", 2, content("<i4", 2, 3), "bigfile-set-attr"); }); }
    else { strs a = {"bigfile-get-attr", "f", "g/b"}; if (shape == 2) a = with(a, {"Time", "name"}); Res r0 = tool(a); str want = r0.out; faults(a, {}, setup, [&](Res &r) { MC_CHECK(r.out == want, "%s claims success and prints '%s', expected '%s'", join(a).c_str(), r.out.c_str(), want.c_str()); }); } }
static void do_ls_faults() { int l = mc_choose(2); mc_split(); mk("f", "g/b", TS[0], 2, 3, 2); strs a = {"bigfile-ls"}; if (l) a.push_back("-l"); a = with(a, {"f", "g/b"}); Res r0 = tool(a); str want = r0.out; faults(a, {}, [] {}, [&](Res &r) { MC_CHECK(r.out == want, "%s claims success and prints '%s', expected '%s'", join(a).c_str(), r.out.c_str(), want.c_str()); }); }
// the checksum script, for real
static int script(const strs &args, str &out) { Traced t = traced(args); out = t.out; return t.status; }
static void do_check() {
    int t = mc_pick(std::vector<int>{0, 2, 8}, "type"); size_t rows = mc_pick(std::vector<size_t>{0, 1, 5}); int nf = 1 + mc_choose(2); int nb = 1 + mc_choose(2), all = mc_choose(2), v = mc_choose(2); mc_split(); int kind = mc_choose(8, "damage"); if (v && kind > 1) return; if (kind == 2 && nb == 1) return; mk("f", "g/b", TS[t], 2, rows, nf, 3); if (nb > 1) mk("f", "c", TS[3], 1, 4, 1, 2, true); BigFile f; str hdr = slurp("f/g/b/header"); Header h; parse_header(hdr, h); bool dmg = false; int file = mc_choose(nf, "file"); str p = "f/g/b/" + fname(file); str d = slurp(p); strs what; str miss;
    if (kind == 1 || kind == 3 || kind == 4) { if (d.empty()) return; size_t pos = kind == 1 ? mc_choose(std::min<size_t>(d.size(), mc_thorough() ? 30 : 6)) : kind == 3 ? 0 : d.size() - 1; str x = d; x[pos] ^= 1 << (kind == 1 ? mc_choose(mc_thorough() ? 8 : 2) * (mc_thorough() ? 1 : 7) : kind == 3 ? 3 : 7); put(p, x); dmg = true; } if (kind == 5) { if (d.empty()) return; unlink(p.c_str()); dmg = true; } if (kind == 6) { if (d.empty()) return; truncate(p.c_str(), d.size() - 1 - mc_choose(std::min<size_t>(d.size(), 3))); dmg = true; } if (kind == 2) { str q = "f/c/000000", x = slurp(q); x[mc_choose(4) * 5] ^= 1; put(q, x); dmg = true; } if (kind == 7) { miss = "nothing"; dmg = true; }
    strs a = {"bigfile-check"}; if (v) a.push_back("-v"); a.push_back("f"); if (!all || kind == 7) { a.push_back("g/b"); if (nb > 1) a.insert(a.end() - mc_choose(2), "c"); } if (miss.size()) a.insert(a.end() - mc_choose(2), miss); mc_note("%s: damage %d", join(a).c_str(), kind); auto before = tree("f"); str out; int st = script(a, out); MC_CHECK(tree("f") == before, "bigfile-check changes the file"); if (dmg) { MC_CHECK(st > 0 && st < 126, "%s has exit status %d: %s", join(a).c_str(), st, out.c_str()); mc_count(0); } else MC_CHECK(st == 0, "%s has exit status %d: %s", join(a).c_str(), st, out.c_str()); mc_state(mc_hash_str(out, st)); }
static void do_sums() {      // sums of bytes around the folds of the checksum
    static const std::vector<unsigned> ss = {0, 1, 255, 0xfffe, 0xffff, 0x10000, 0x10001, 0x1fffd, 0x1fffe, 0x1ffff, 0x20000, 0x2fffc, 0x2fffd, 0x2fffe, 0x2ffff, 0x3ffff, 0x5ffff, 0xfffff}; unsigned sum = mc_pick(ss, "sum"); int nf = 1 + mc_choose(2); mc_split(); str d = bigdata(sum); size_t rows = d.size() / 8; BigFile f; BigBlock b; OK(big_file_create(&f, "f")); sizes_t fs = split(rows, nf); OK(big_file_create_block(&f, &b, "b", "i8", 1, nf, fs.data())); if (rows) MC_CHECK(wr_at(&b, 0, d, "i8", 1) == 0, "write"); OK(big_block_close(&b)); OK(big_file_close(&f));
    mc_note("%zu rows, the bytes add up to %#x", rows, sum); Res r = tool({"bigfile-ls", "-l", "f", "b"}); char n[100], t[20]; int nm; long sz; unsigned got = ~0u; MC_CHECK(r.ok() && sscanf(r.out.c_str(), "%99s %19s %d %ld %u", n, t, &nm, &sz, &got) == 5 && got == sysv(sum) && sz == (long)rows, "bigfile-ls prints '%s', the sum is %u", r.out.c_str(), sysv(sum)); str out; int st = script({"bigfile-check", "f", "b"}, out); MC_CHECK(st == 0, "bigfile-check rejects the intact block: %s", out.c_str());
    if (!rows) return; str p = "f/b/000000", x = slurp(p); if (x.empty()) return; x[x.size() / 2] += 1; put(p, x); st = script({"bigfile-check", "f", "b"}, out); MC_CHECK(st > 0 && st < 126, "bigfile-check has status %d for a damaged block", st); mc_state(mc_hash_str(r.out)); }
static void do_misc() {
    static const std::vector<strs> cs = {{"bigfile-cat", "f"}, {"bigfile-cat", "-x", "f", "b"}, {"bigfile-cat", "none", "b"}, {"bigfile-cat", "f", "none"}, {"bigfile-cat", "f", "broken"}, {"bigfile-cat", "f", "short"}, {"bigfile-cat", "-b", "f", "short"}, {"bigfile-create", "f", "b"}, {"bigfile-create", "f", "new", "zz"}, {"bigfile-create", "f", "new", ""}, {"bigfile-create", "-n", "0", "f", "new", "i4"}, {"bigfile-create", "-n", "-1", "f", "new", "i4"}, {"bigfile-create", "f", "a blank", "i4"}, {"bigfile-create", "f/b/header", "new", "i4"}, {"bigfile-ls"}, {"bigfile-ls", "none"}, {"bigfile-ls", "f", "none"}, {"bigfile-ls", "f", "broken"}, {"bigfile-ls", "-l", "f", "broken"}, {"bigfile-ls", "-x", "f"}, {"bigfile-get-attr", "f"}, {"bigfile-get-attr", "none", "b"}, {"bigfile-get-attr", "f", "none"}, {"bigfile-get-attr", "f", "broken"}, {"bigfile-get-attr", "f", "badattr"}, {"bigfile-get-attr", "f", "b", "none"}, {"bigfile-set-attr", "f", "b", "x"}, {"bigfile-set-attr", "f", "broken", "x", "1"}, {"bigfile-set-attr", "-t", "i4", "f", "broken", "x", "1"}, {"bigfile-set-attr", "-t", "i4", "none", "b", "x", "1"}, {"bigfile-set-attr", "-t", "i4", "f", "b", "a blank", "1"}};
    auto &a = cs[mc_choose(cs.size())]; mc_split(); mk("f", "b", TS[0], 1, 3, 2, 1, true); mk("f", "broken", TS[0], 1, 3, 1); put("f/broken/header", "DTYPE: <i4\nNMEMB"); mk("f", "short", TS[0], 1, 3, 2); truncate("f/short/000001", 3); mk("f", "badattr", TS[0], 1, 3, 2); put("f/badattr/attr-v2", "x <i4 7"); mc_note("%s", join(a).c_str()); auto before = tree("f/b"); RunOpts o; o.in = str(12, 'x'); Res r = tool(a, o); bool may = a[0] == "bigfile-set-attr" && a.size() > 5 && a[5] == "a blank"; if (r.ok() && may) { auto m = attrs_of("f", "b"); MC_CHECK(m.count("a blank") && m["a blank"].data == le(1), "success without effect"); return; } bad(a, r, "that cannot be done"); MC_CHECK(tree("f/b") == before, "block b has changed"); }
static void run() { mc_wipe("."); switch (mc_choose(12, "tool")) { case 0: do_cat(); break; case 1: do_cat_faults(); break; case 2: do_create(); break; case 3: do_create_faults(); break; case 4: do_ls(); break; case 5: do_getattr(); break; case 6: do_setattr(); break; case 7: do_attr_faults(); break; case 8: do_ls_faults(); break; case 9: do_check(); break; case 10: do_misc(); break; case 11: do_sums(); break; } }
int main(int c, char **v) { tools_init(v[0]); for (auto n : {"bigfile-cat", "bigfile-create", "bigfile-ls", "bigfile-get-attr", "bigfile-set-attr"}) tool_sym(n); McOpts o; o.property = "C25"; o.run = run; o.counters[0] = "failures reported by the tools"; o.counters[1] = "faults without consequence"; o.counters[2] = "tool runs that failed after a fault"; return mc_main(c, v, o); }
