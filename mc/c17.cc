// C17: names, hierarchy, listing, replacing blocks, refused creations.
#include "bf.h"
struct Shape { const char *dt; int nm; sizes_t fs; };
static const std::vector<Shape> SH = {{"<i4", 1, {2, 1}}, {"f8", 3, {1}}, {">u2", 2, {}}, {NULL, 0, {}}, {"S5", 1, {0, 4, 0, 1}}, {"b1", 7, {3, 3, 3}}};
struct B { int shape; str data; bool attr; int grown; };
typedef std::map<str, B> Model;
static BigFile bf;
static sizes_t layout(const B &b) { sizes_t f = SH[b.shape].fs; for (int i = 0; i < b.grown; i++) f.push_back(2); return f; }
static str dtn(const char *d) { str r = d ? d : "i8"; if (!strchr("<>", r[0])) r = "<" + r; return r; }
static void check_open(const str &n, const B &b) {
    BigBlock bb; mc_transitions(); MC_CHECK(big_file_open_block(&bf, &bb, n.c_str()) == 0, "block '%s' can not be opened: %s", show(n).c_str(), errmsg());
    const Shape &s = SH[b.shape]; sizes_t f = layout(b); str dt = dtn(s.dt);
    MC_CHECK(dt == bb.dtype && bb.nmemb == s.nm && bb.Nfile == (int)f.size() && bb.size == total(f), "block '%s' opened as %s x %d, %d files, %zu rows; created as %s x %d, %zu files, %zu rows", show(n).c_str(), bb.dtype, bb.nmemb, bb.Nfile, bb.size, dt.c_str(), s.nm, f.size(), total(f));
    for (size_t i = 0; i < f.size(); i++) MC_CHECK(bb.fsize[i] == f[i], "block '%s' file %zu has %zu rows, expected %zu", show(n).c_str(), i, bb.fsize[i], f[i]);
    size_t cnt; BigAttr *l = big_block_list_attrs(&bb, &cnt); MC_CHECK(cnt == (b.attr ? 1u : 0u), "block '%s' has %zu attributes, expected %d", show(n).c_str(), cnt, b.attr);
    if (b.attr) { char v[8] = {0}; MC_CHECK(!strcmp(l[0].name, "tag") && !big_block_get_attr(&bb, "tag", v, "S1", 3) && !strcmp(v, "abc"), "block '%s' lost its attribute", show(n).c_str()); }
    int rs = width(dt) * (s.nm ? s.nm : 1);
    for (size_t r = 0; r < total(f); r++) { str got; int rt = rd_at(&bb, r, 1, got, dt.c_str(), s.nm); bool written = r * rs < b.data.size();
        if (written) MC_CHECK(rt == 0 && got == b.data.substr(r * rs, rs), "block '%s' row %zu: %s, expected %s", show(n).c_str(), r, rt ? errmsg() : hex(got).c_str(), hex(b.data.substr(r * rs, rs)).c_str());
        else MC_CHECK(rt != 0 || got == str(rs, 0), "block '%s' row %zu was never written but reads as %s", show(n).c_str(), r, hex(got).c_str()); }
    OK(big_block_close(&bb));
}
static void check_list(const Model &m) {
    char **names = NULL; int n = -1; mc_transitions(); OK(big_file_list(&bf, &names, &n)); std::multiset<str> got, want; for (int i = 0; i < n; i++) { got.insert(names[i]); free(names[i]); } free(names);
    for (auto &x : m) want.insert(x.first);
    if (got != want) { str g, w; for (auto &x : got) g += show(x.substr(0, 80)) + " | "; for (auto &x : want) w += show(x.substr(0, 80)) + " | "; mc_fail("listing gives: %s but there are: %s", g.c_str(), w.c_str()); }
}
static void check_all(const Model &m, const std::vector<str> &pool) {
    check_list(m); uint64_t h = 3; for (auto &x : m) { check_open(x.first, x.second); h = mc_hash_str(x.first + std::to_string(x.second.shape) + x.second.data, h); } mc_state(h);
    for (auto &n : pool) if (!m.count(n)) { BigBlock bb; MC_CHECK(big_file_open_block(&bf, &bb, n.c_str()) != 0, "opening '%s', which does not exist, succeeded", show(n).c_str()); MC_CHECK(errmsg()[0], "no message"); }
}
static void create(Model &m, const str &n, int sh, int fill) {    // fill: 0 nothing, 1 all rows, 2 first row; +attr if nonzero
    BigBlock bb; const Shape &s = SH[sh]; size_t one[1] = {0}; mc_transitions(); Buf nm(n + str(1, 0));
    MC_CHECK(big_file_create_block(&bf, &bb, nm.p, s.dt, s.nm, s.fs.size(), s.fs.size() ? s.fs.data() : one) == 0, "creating '%s' failed: %s", show(n).c_str(), errmsg());
    MC_CHECK(bb.size == total(s.fs) && bb.nmemb == s.nm, "the created handle has %zu rows of %d", bb.size, bb.nmemb);
    size_t cnt; big_block_list_attrs(&bb, &cnt); MC_CHECK(cnt == 0, "a block just created has %zu attributes", cnt);
    B b = {sh, "", fill != 0, 0}; str dt = dtn(s.dt); int rs = width(dt) * (s.nm ? s.nm : 1); size_t k = fill == 1 ? total(s.fs) : fill == 2 && total(s.fs) ? 1 : 0;
    for (size_t r = 0; r < k; r++) b.data += rowpat(sh * 7 + fill + (unsigned)n.size(), r, rs);
    if (k) OK(wr_at(&bb, 0, b.data, dt.c_str(), s.nm));
    if (fill) OK(big_block_set_attr(&bb, "tag", "abc", "S1", 3));
    OK(big_block_close(&bb)); m[n] = b;
}
static void grow(Model &m, const str &n) { BigBlock bb; size_t f[1] = {2}; OK(big_file_open_block(&bf, &bb, n.c_str())); OK(big_block_grow(&bb, 1, f)); OK(big_block_close(&bb)); m[n].grown++; mc_transitions(); }
static bool nested(const Model &m, const str &n) { for (auto &x : m) { str a = x.first + "/", b = n + "/"; if (a != b && (a.compare(0, b.size(), b) == 0 || b.compare(0, a.size(), a) == 0)) return true; } return false; }

static void hist() {
    static const std::vector<str> pool = {"a", "b", "g/a", "g/h/x", "g.h/x", "g/h/deep/er/y", "A-z_0"};
    int first = mc_choose(10), second = mc_choose(10); mc_split(); mc_wipe("bf"); OK(big_file_create(&bf, "bf")); Model m; int depth = mc_thorough() ? 5 : 4;
    check_all(m, pool);
    for (int d = 0; d < depth; d++) {
        int op = d == 0 ? first : d == 1 ? second : mc_choose(10, "op");
        if (op < 7) { if (nested(m, pool[op])) return; int v = d < 2 ? (int)((op + d) % 3) : mc_choose(2); mc_note("create %s variant %d", pool[op].c_str(), v); create(m, pool[op], (v * 2 + op + d) % 6, v); }
        else if (op == 7) { if (m.empty()) return; mc_note("grow %s", m.begin()->first.c_str()); if (SH[m.begin()->second.shape].nm) grow(m, m.begin()->first); }
        else if (op == 8) { mc_note("close and open the file"); OK(big_file_close(&bf)); OK(big_file_open(&bf, "bf")); }
        else { mc_note("create the file again"); OK(big_file_close(&bf)); OK(big_file_create(&bf, "bf")); }
        check_all(m, pool);
    }
    OK(big_file_close(&bf));
}
static void replace() {          // every shape replaced by every other one, and grown afterwards
    int a = mc_choose(6), b = mc_choose(6); mc_split(); int fa = mc_choose(3), fb = mc_choose(3), reopen = mc_choose(2), ga = mc_choose(2); static const std::vector<str> nn = {"x", "g/x", "q/w/e/x"}; const str &n = mc_pick(nn); mc_wipe("bf"); OK(big_file_create(&bf, "bf")); Model m; mc_note("shape %d fill %d replaced by %d fill %d", a, fa, b, fb);
    create(m, "other", 5, 1); create(m, n, a, fa); if (ga && SH[a].nm) grow(m, n); if (reopen) { OK(big_file_close(&bf)); OK(big_file_open(&bf, "bf")); }
    create(m, n, b, fb); check_all(m, {"g", "q", "q/w"}); if (SH[b].nm) { grow(m, n); grow(m, n); grow(m, n); grow(m, n); } check_all(m, {}); OK(big_file_close(&bf));
}
static void replace_open() {     // a handle on the old block is still open while the block is replaced
    int a = mc_choose(6), b = mc_choose(6); mc_split(); mc_wipe("bf"); OK(big_file_create(&bf, "bf")); Model m; create(m, "x", a, 1); BigBlock old; OK(big_file_open_block(&bf, &old, "x")); create(m, "x", b, 1); OK(big_block_close(&old)); check_all(m, {}); OK(big_file_close(&bf));
}
static void names() {
    int kind = mc_choose(5); str n; bool ok = true;
    if (kind == 0) { int c = 1 + mc_choose(255); mc_split(); if (c == '/') return; int form = mc_choose(4); str s(1, (char)c); n = form == 0 ? s : form == 1 ? "p" + s + "q" : form == 2 ? "g" + s + "/b" + s : "pq" + s; if (n == "." ) return; if (n[0] == '.' ) return; ok = c != ' ' && c != '\t' && c != '\n'; }
    else if (kind == 1) { static const int L[] = {2, 63, 64, 100, 127, 128, 129, 200, 254, 255}; int l = L[mc_choose(10)]; mc_split(); int lev = 1 + mc_choose(3); for (int i = 0; i < lev; i++) n += (i ? "/" : "") + str(l, 'a' + i); }
    else if (kind == 2) { static const int D[] = {2, 8, 31, 40, 100, 600, 1500}; int d = D[mc_choose(7)]; mc_split(); for (int i = 0; i < d; i++) n += (i ? "/" : "") + str(1, 'a' + i % 26); }
    else if (kind == 3) { static const std::vector<str> w = {"%s%n%d", "%5000d", "g%s/b%n", "000000", "header.x", "attr-v3", "x.", "x..", "a.b/c.d", "-rf", "~", "$HOME", "`x`", "\xe2\x98\x83/\xff\xfe", "a\\b", "UPPER/lower", "1/2/3", "000000/000000", "a;b", "*", "?", "[a]", "a\"b'c", "header-attr", "attr-v2x/y"}; n = mc_pick(w); mc_split(); }
    else { static const int L[] = {1000, 2000, 3900}; int l = L[mc_choose(3)]; mc_split(); while ((int)n.size() + 101 < l) n += str(100, 'l') + "/"; n += "end"; }
    mc_note("name of %zu characters: %s", n.size(), show(n.substr(0, 200)).c_str()); mc_wipe("bf"); OK(big_file_create(&bf, "bf")); Model m; create(m, "zz/other", 0, 1);
    if (ok) { create(m, n, 0, 1); create(m, "a0", 4, 1); str sib = n; sib.pop_back(); sib += n.back() == 'Q' ? 'R' : 'Q'; if (sib != n) create(m, sib, 1, 1); check_all(m, {n + "x", "zz"}); create(m, n, 1, 0); check_all(m, {}); OK(big_file_close(&bf)); OK(big_file_open(&bf, "bf")); check_all(m, {}); }
    else { size_t fs[1] = {1}; BigBlock bb; MC_CHECK(big_file_create_block(&bf, &bb, n.c_str(), "i4", 1, 1, fs) != 0, "creating '%s' succeeded", show(n).c_str()); MC_CHECK(errmsg()[0], "no message"); check_all(m, {n}); }
    OK(big_file_close(&bf));
}
static void hierarchy() {        // groups and blocks mixed in one directory, more entries than any fixed table; sub-directories as files of their own
    int ng = mc_choose(4), nb = mc_choose(4); mc_split(); static const int N[] = {0, 1, 3, 40}; int sub = mc_choose(2); mc_wipe("bf"); OK(big_file_create(&bf, "bf")); Model m, s;
    for (int g = 0; g < N[ng]; g++) for (int b = 0; b < N[nb]; b++) { str n = "g" + std::to_string(g) + (b % 2 ? "/sub/b" : "/b") + std::to_string(b); if (b > 3 && g > 2) continue; create(m, n, (b + g) % 6, 0); }
    for (int b = 0; b < N[nb]; b++) create(m, "top" + std::to_string(b), b % 6, 1);
    for (int g = 0; g < N[ng]; g++) { mkdirs("bf/empty" + std::to_string(g)); mkdirs("bf/g0/none/at/all"); put("bf/junk" + std::to_string(g), "junk"); }
    check_all(m, {"g0", "junk0", "empty0", "g0/none"});
    if (sub && N[ng]) { OK(big_file_close(&bf)); OK(big_file_open(&bf, "bf/g0")); for (auto &x : m) if (x.first.compare(0, 3, "g0/") == 0) s[x.first.substr(3)] = x.second; check_all(s, {"top0", "g0/b0"}); }
    OK(big_file_close(&bf));
}
static void refused() {          // creations that can not succeed leave everything as it is
    struct X { const char *dt; int nm, nf; sizes_t fs; const char *name; };
    static const std::vector<X> xs = {{"i4", 1, 1, {1}, "a b"}, {"i4", 1, 1, {1}, "a\nb"}, {"i4", 1, 1, {1}, "g/a\tb"}, {"i4", 1, 1, {1}, "g h/a"}, {"i4", 1, -1, {1}, "x"}, {"i4", -1, 1, {1}, "x"}, {"i4", 1, -1, {1}, "g/y"}, {"S99999999", 1, 1, {1}, "x"}, {"", 1, 1, {1}, "x"}, {"<", 1, 1, {1}, "x"}, {"i", 1, 1, {1}, "x"}, {"<i-4", 1, 1, {1}, "x"}, {"i4x", 1, 1, {1}, "x"}, {"zz", 1, 1, {1}, "x"}, {"i4", 1, 2, {SIZE_MAX / 2, SIZE_MAX / 2 + 2}, "x"}, {"i8", 2, 1, {SIZE_MAX / 8}, "g/y"}, {"i4", 1 << 30, 1, {1}, "x"}, {"i8", 1, INT32_MAX, {1}, "x"}, {"i4", 1, 1, {1}, "taken/x"}};
    const X &x = mc_pick(xs); int fill = mc_choose(3); mc_split(); mc_wipe("bf"); OK(big_file_create(&bf, "bf")); Model m; create(m, "x", 0, fill); create(m, "g/y", 5, fill); put("bf/taken", "a file");
    auto before = tree("bf"); BigBlock bb; mc_note("create '%s' %s x %d, %d files", show(x.name).c_str(), x.dt, x.nm, x.nf); int rt = big_file_create_block(&bf, &bb, x.name, x.dt, x.nm, x.nf, x.fs.data()); mc_transitions();
    MC_CHECK(rt != 0, "creating '%s' with type '%s' x %d in %d files succeeded", show(x.name).c_str(), x.dt, x.nm, x.nf); MC_CHECK(errmsg()[0], "no message");
    auto after = tree("bf"); for (auto &f : before) MC_CHECK(after.count(f.first) && after[f.first] == f.second, "the refused creation changed %s", f.first.c_str()); for (auto &f : after) MC_CHECK(before.count(f.first) || f.first.back() == '/', "the refused creation left %s", f.first.c_str());
    check_all(m, {"a b", "g h/a"}); create(m, "later", 1, 1); check_all(m, {}); OK(big_file_close(&bf));
}
static void files() {            // opening and creating files
    int k = mc_choose(6); mc_split(); mc_wipe("bf"); BigFile f; memset(&f, 0, sizeof f);
    if (k == 0) { MC_CHECK(big_file_open(&f, "bf/none") != 0, "opening a missing file succeeded"); MC_CHECK(strstr(errmsg(), "bf/none"), "the message '%s' does not name the file", errmsg()); return; }
    str n = k == 1 ? "bf/a/b/c/d" : k == 2 ? "bf/" + str(200, 'n') + "/" + str(200, 'm') : k == 3 ? "bf/per%sent%n" : k == 4 ? "bf/plain/" : "bf/x"; OK(big_file_create(&f, n.c_str())); MC_CHECK(exists(n), "the directory of the file does not exist"); bf = f; Model m; create(m, "q/r", 0, 1); check_all(m, {"q"}); OK(big_file_close(&bf)); OK(big_file_open(&bf, n.c_str())); check_all(m, {"q"}); OK(big_file_close(&bf));
    OK(big_file_create(&bf, n.c_str())); check_all(m, {"q"}); OK(big_file_close(&bf)); MC_CHECK(exists(n + "/q/r/header"), "the block is not where it belongs"); MC_CHECK(big_file_open(&f, (n + "none").c_str()) != 0, "opening a missing file succeeded");
}
static void run() { big_file_set_buffer_size(4096); switch (mc_choose(7)) { case 0: return hist(); case 1: return replace(); case 2: return replace_open(); case 3: return names(); case 4: return hierarchy(); case 5: return refused(); default: return files(); } }
int main(int c, char **v) { mc_track_module("libbf"); McOpts o; o.property = "C17"; o.run = run; return mc_main(c, v, o); }
