// C07: attributes are a persistent sorted map.
#include "bf.h"
static BigFile bf;
struct V { str dt; int nm; str data; };
typedef std::map<str, V> Map;
static str norm(const str &d) { str r = d; if (!strchr("<>=|", r[0])) r = "<" + r; if (r[0] == '=' || r[0] == '|') r[0] = '<'; return r; }
static void verify(BigBlock *bb, const Map &m, const char *ctx) {
    size_t cnt = 77777; BigAttr *l = big_block_list_attrs(bb, &cnt); MC_CHECK(cnt == m.size(), "%s: %zu attributes listed, expected %zu", ctx, cnt, m.size());
    size_t i = 0; uint64_t h = 7;
    for (auto &x : m) {
        const V &v = x.second; MC_CHECK(x.first == l[i].name, "%s: attribute number %zu is listed as '%s', expected '%s'", ctx, i, show(l[i].name).c_str(), show(x.first).c_str());
        MC_CHECK(l[i].nmemb == v.nm && norm(v.dt) == l[i].dtype && !memcmp(l[i].data, v.data.data(), v.data.size()), "%s: listed attribute '%s' has type %s length %d data %s, expected %s %d %s", ctx, show(x.first).c_str(), l[i].dtype, l[i].nmemb, hex(str(l[i].data, v.data.size())).c_str(), v.dt.c_str(), v.nm, hex(v.data).c_str());
        BigAttr *a = big_block_lookup_attr(bb, x.first.c_str()); MC_CHECK(a && a->nmemb == v.nm && norm(v.dt) == a->dtype && x.first == a->name && !memcmp(a->data, v.data.data(), v.data.size()), "%s: looking up '%s' gives something else", ctx, show(x.first).c_str());
        Buf o(v.data.size() + 1, 0x5C); MC_CHECK(big_block_get_attr(bb, x.first.c_str(), o.p, v.dt.c_str(), v.nm) == 0, "%s: getting '%s' failed: %s", ctx, show(x.first).c_str(), errmsg()); MC_CHECK(o.s() == v.data + "\x5C", "%s: getting '%s' gave %s, expected %s", ctx, show(x.first).c_str(), hex(o.s()).c_str(), hex(v.data).c_str());
        i++; h = mc_hash_str(x.first, h); h = mc_hash_str(v.data + v.dt, h);
    }
    mc_state(h); mc_transitions(m.size());
}
static void absent(BigBlock *bb, const str &n) { char b[64]; MC_CHECK(big_block_lookup_attr(bb, n.c_str()) == NULL, "attribute '%s' is found though it is not there", show(n).c_str()); MC_CHECK(big_block_get_attr(bb, n.c_str(), b, "i4", 1) != 0, "getting the absent attribute '%s' succeeded", show(n).c_str()); }
static void set(BigBlock *bb, Map &m, const str &n, const V &v) { Buf d(v.data); Buf dt(v.dt + str(1, 0)); Buf nm(n + str(1, 0)); int rt = big_block_set_attr(bb, nm.p, d.p, dt.p, v.nm); mc_transitions(); MC_CHECK(rt == 0, "setting '%s' (%s x %d) failed: %s", show(n).c_str(), v.dt.c_str(), v.nm, errmsg()); MC_CHECK(d.s() == v.data, "set changed its input"); m[n] = v; }
static void del(BigBlock *bb, Map &m, const str &n) { int rt = big_block_remove_attr(bb, n.c_str()); mc_transitions(); if (m.count(n)) { MC_CHECK(rt == 0, "removing '%s' failed: %s", show(n).c_str(), errmsg()); m.erase(n); } else MC_CHECK(rt != 0, "removing the absent '%s' succeeded", show(n).c_str()); }
static const char *CONT[] = {"data", "g/nodata", "."};
static void make(int c, BigBlock *bb) { size_t fs[2] = {2, 1}; OK(big_file_create(&bf, "bf")); big_file_set_buffer_size(4096);
    if (c == 0) { OK(big_file_create_block(&bf, bb, CONT[0], "<i4", 1, 2, fs)); OK(wr_at(bb, 0, "abcdefghijkl", "<i4", 1)); } else OK(big_file_create_block(&bf, bb, CONT[c], NULL, 0, 0, NULL)); }
static void reopen(int c, BigBlock *bb) { OK(big_block_close(bb)); OK(big_file_open_block(&bf, bb, CONT[c])); }
static void fin(int c, BigBlock *bb, Map &m) { verify(bb, m, "before close"); reopen(c, bb); verify(bb, m, "after re-open"); if (c == 0) { str s; OK(rd_at(bb, 0, 3, s, "<i4", 1)); MC_CHECK(s == "abcdefghijkl", "the rows changed"); MC_CHECK(bb->size == 3, "the size changed"); } reopen(c, bb); verify(bb, m, "after the second re-open"); OK(big_block_close(bb)); OK(big_file_close(&bf)); }
static V val(int k) { static std::vector<V> v; if (v.empty()) { int i = -5; double d[3] = {1.5, -2, 1e300}; str l; for (int k = 0; k < 150; k++) l += (char)(33 + k % 90); v = {{"<i4", 1, str((char *)&i, 4)}, {"S1", 150, l}, {">f8", 3, str((char *)d, 24)}, {"<i8", 0, ""}, {"b1", 2, str("\1\0", 2)}, {"|S5", 2, "abc\0\0defgh" + str()}, {"c16", 1, str((char *)d, 16)}, {"a1", 3, "x y"}, {"=u4", 2, str((char *)d, 8)}, {"<S1", 4, str("\n\t \0", 4)}, {"<S1", 0, ""}, {"f4", 40, str(160, 0x41)}}; v[5].data = str("abc\0\0defgh", 10); } return v[k % v.size()]; }
static void hist() {
    static const std::vector<str> names = {"b", "a", "cc"}; int c = mc_choose(3); int first = mc_choose(17); mc_split(); BigBlock bb; mc_wipe("bf"); make(c, &bb); Map m; int depth = mc_thorough() ? 5 : 4;
    for (int d = 0; d < depth; d++) { int op = d ? mc_choose(17, "op") : first;
        if (op < 9) { mc_note("set %s value %d", names[op / 3].c_str(), op % 3); set(&bb, m, names[op / 3], val(op % 3)); } else if (op < 12) { mc_note("remove %s", names[op - 9].c_str()); del(&bb, m, names[op - 9]); }
        else if (op == 12) { mc_note("flush"); OK(big_block_flush(&bb)); } else if (op == 13) { mc_note("re-open"); reopen(c, &bb); } else if (op == 14) { mc_note("set empty"); set(&bb, m, "a", val(3)); } else if (op == 15) { mc_note("wrong length"); char b[4096]; for (auto &n : names) { if (m.count(n)) { for (int k : {m[n].nm + 1, m[n].nm - 1}) if (k >= 0) MC_CHECK(big_block_get_attr(&bb, n.c_str(), b, m[n].dt.c_str(), k) != 0, "reading '%s' with a wrong length succeeded", n.c_str()); } else absent(&bb, n); } }
        else { mc_note("flush, another handle changes it, re-open"); OK(big_block_flush(&bb)); BigBlock o; OK(big_file_open_block(&bf, &o, CONT[c])); verify(&o, m, "second handle"); set(&o, m, "b", val(4)); OK(big_block_close(&o)); OK(big_block_close(&bb)); OK(big_file_open_block(&bf, &bb, CONT[c])); }
        verify(&bb, m, "after the operation"); for (auto &n : names) if (!m.count(n)) absent(&bb, n); }
    fin(c, &bb, m);
}
static void many() {   // sizes: number of attributes x value size x name length x insertion order
    static const int NA[] = {1, 2, 15, 16, 17, 33, 70}, VS[] = {1, 7, 30, 129, 1000}, NL[] = {1, 12, 200, 3000}; int na = NA[mc_choose(7)], vs = VS[mc_choose(5)], nl = NL[mc_choose(4)]; mc_split(); int ord = mc_choose(4), c = mc_choose(3), when = mc_choose(3);
    if (nl == 3000 && na > 17) na = 18; BigBlock bb; mc_wipe("bf"); make(c, &bb); Map m; mc_note("%d attributes of %d bytes, names of %d, order %d", na, vs, nl, ord);
    auto nm = [&](int i) { char b[16]; snprintf(b, 16, "%03d", i); return str(b) + str(nl > 3 ? nl - 3 : 0, 'n'); }; auto vv = [&](int i, int g) { V v; v.dt = i % 3 ? "S1" : "<i8"; v.nm = i % 3 ? vs + i % 4 : (vs + 7) / 8; for (int k = 0; k < v.nm * (i % 3 ? 1 : 8); k++) v.data += (char)pat(i * 10 + g, k, 5); return v; };
    for (int k = 0; k < na; k++) { int i = ord == 0 ? k : ord == 1 ? na - 1 - k : ord == 2 ? (k * 7 + 3) % na : k; if (ord == 2 && na % 7 == 0) i = k ^ 1; set(&bb, m, nm(i), vv(i, 0)); if (when == 1 && k % 9 == 8) reopen(c, &bb); }
    verify(&bb, m, "all set"); if (when == 2) OK(big_block_flush(&bb));
    for (int i = 0; i < na; i += 3) set(&bb, m, nm(i), vv(i + 1, 1)); verify(&bb, m, "replaced"); if (ord == 3) for (int i = 1; i < na; i += 2) del(&bb, m, nm(i)); verify(&bb, m, "removed");
    reopen(c, &bb); verify(&bb, m, "re-opened"); for (int i = 0; i < na + 3; i += 2) set(&bb, m, nm(i), vv(i + 2, 2)); verify(&bb, m, "set after re-open"); for (int i = 0; i < na; i += 5) del(&bb, m, nm(i)); fin(c, &bb, m);
}
static void values() {  // every pair of values, types and names, replaced by each other
    int a = mc_choose(12), b = mc_choose(12), c = mc_choose(3); mc_split(); static const std::vector<str> nn = {"x", "a.very/odd\\name%s%d%n", str(127, 'q'), "\"#HUMANE", "0"}; const str &n = mc_pick(nn); BigBlock bb; mc_wipe("bf"); make(c, &bb); Map m; mc_note("values %d %d name %s", a, b, show(n).c_str());
    set(&bb, m, n, val(a)); set(&bb, m, "other", val(b)); verify(&bb, m, "set"); reopen(c, &bb); verify(&bb, m, "re-opened"); set(&bb, m, n, val(b)); set(&bb, m, "zz", val(a)); verify(&bb, m, "replaced"); fin(c, &bb, m);
}
static void invalid() {
    struct X { str name, dt; int nm; }; static const std::vector<X> xs = {{"", "<i4", 1}, {"a b", "<i4", 1}, {"a\tb", "<i4", 1}, {"a\nb", "<i4", 1}, {" ", "<i4", 1}, {"x", "", 1}, {"x", "<", 1}, {"x", "<i", 1}, {"x", "i0", 1}, {"x", "<i-4", 1}, {"x", "i4", -1}, {"p", "i4", -1}, {"p", "<i", 1}, {"x", "<i 4", 1}, {"p", "zz", 1}, {"p", "i4 4", 1}, {"p\nq", "i4", 1}, {"x", "<i4", -1000000}, {"p", "<x4y", 1}};
    const X &x = mc_pick(xs); int c = mc_choose(3), pre = mc_choose(3), clean = mc_choose(2); mc_split(); BigBlock bb; mc_wipe("bf"); make(c, &bb); Map m; if (pre > 0) set(&bb, m, "p", val(0)); if (pre > 1) for (int i = 0; i < 20; i++) set(&bb, m, "n" + std::to_string(i), val(i));
    if (clean) reopen(c, &bb); Buf d(str(4096, 'd')); mc_note("set '%s' %s x %d", show(x.name).c_str(), x.dt.c_str(), x.nm); int rt = big_block_set_attr(&bb, x.name.c_str(), d.p, x.dt.c_str(), x.nm); mc_transitions();
    MC_CHECK(rt != 0, "setting attribute '%s' of type '%s' x %d succeeded", show(x.name).c_str(), show(x.dt).c_str(), x.nm); MC_CHECK(big_file_get_error_message() && *big_file_get_error_message(), "no message"); verify(&bb, m, "after a refused set"); if (!m.count(x.name)) absent(&bb, x.name);
    set(&bb, m, "later", val(1)); fin(c, &bb, m);
}
static void legacy() {   // attributes in the legacy binary file
    int n1 = mc_choose(4) * 6; int bits = mc_choose(3), op1 = mc_choose(6), c = mc_choose(3); mc_split(); int op2 = mc_choose(6); BigBlock bb; mc_wipe("bf"); make(c, &bb); OK(big_block_close(&bb)); str dir = str("bf/") + CONT[c]; unlink((dir + "/attr-v2").c_str()); Map m; str v1;
    auto put1 = [&](const str &n, const V &v) { int l = n.size(), k = v.nm; char dt[8] = {0}; strcpy(dt, norm(v.dt).c_str()); v1 += str((char *)&k, 4) + str((char *)&l, 4) + str(dt, 8) + n + v.data; m[n] = v; };
    for (int i = 0; i < n1; i++) { V v = val(i); if (v.nm == 0) v = val(0); put1("L" + std::to_string(i), v); } if (bits == 1) put1(str(5000, 'L'), val(1)); if (bits == 2) { V v; v.dt = "<i8"; v.nm = 3000; v.data = str(24000, 'x'); put1("big", v); }
    put(dir + "/attr", v1); OK(big_file_open_block(&bf, &bb, CONT[c])); verify(&bb, m, "legacy");
    for (int op : {op1, op2}) { mc_note("op %d", op); switch (op) { case 0: set(&bb, m, "L0", val(2)); break; case 1: if (m.count("L1")) del(&bb, m, "L1"); break; case 2: set(&bb, m, "new", val(1)); break; case 3: reopen(c, &bb); break; case 4: OK(big_block_flush(&bb)); break; case 5: { std::vector<str> k; for (auto &x : m) k.push_back(x.first); for (auto &x : k) del(&bb, m, x); break; } } verify(&bb, m, "after"); }
    fin(c, &bb, m);
}
static void run() { switch (mc_choose(5)) { case 0: return hist(); case 1: return many(); case 2: return values(); case 3: return invalid(); default: return legacy(); } }
int main(int c, char **v) { mc_track_module("libbf"); McOpts o; o.property = "C07"; o.run = run; return mc_main(c, v, o); }
