// C26: error messages.
#include "bf.h"
static BigFile bf;
static str nm() {
    static std::vector<str> v; if (v.empty()) { v = {"x", "g/h/x", "%s", "%n%n%n", "100%", "%", "%%", "a%5000dz", "%1$s%2$n", "\\x41\\n", "`q'", "\xff\xfe\x01", "%s%s%s%s%s%s%s%s%s%s%s%s", "g%s/x%d", "@(file:1)"}; for (int l : {60, 127, 128, 129, 200, 255}) v.push_back(str(l, 'L')); for (int l : {300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 3700}) { str s; while ((int)s.size() + 61 < l) s += str(60, 'd') + "/"; s += str(l - s.size(), 'e'); v.push_back(s); } str p; for (int i = 0; i < 60; i++) p += "%s%n%d%x" "/"; v.push_back(p + "end"); }
    return v[mc_choose((int)v.size())];
}
static void named(const char *what, int rt, const str &name) { mc_transitions(); MC_CHECK(rt != 0, "%s succeeded", what); const char *m = big_file_get_error_message(); MC_CHECK(m && *m, "%s: no message", what); MC_CHECK(strstr(m, name.c_str()), "%s: the message does not name '%s' literally: '%s'", what, show(name.substr(0, 300)).c_str(), show(str(m).substr(0, 900)).c_str()); mc_state(mc_hash_str(m)); }
static void some(const char *what, int rt) { mc_transitions(); MC_CHECK(rt != 0, "%s succeeded", what); const char *m = big_file_get_error_message(); MC_CHECK(m && *m, "%s: no message", what); mc_state(mc_hash_str(m)); }
static void failures() {
    str n = nm(); int k = mc_choose(22); mc_split(); int pre = mc_choose(3); mc_wipe("bf"); mc_note("name %s, failure %d", show(n.substr(0, 200)).c_str(), k);
    big_file_set_error_message(pre == 0 ? NULL : pre == 1 ? (char *)"earlier %s%n" : (char *)str(5000, 'p').c_str());
    OK(big_file_create(&bf, "bf")); str p = "bf/" + n; BigBlock bb; size_t fs[3] = {2, 0, 1}; str s; BigBlockPtr ptr; char buf[64] = {0};
    auto mk = [&]() { OK(big_file_create_block(&bf, &bb, n.c_str(), "i4", 1, 3, fs)); OK(wr_at(&bb, 0, str(12, 'd'), "<i4", 1)); };
    auto shut = [&]() { OK(big_block_close(&bb)); };
    switch (k) {
    case 0: { BigFile f; named("opening a missing file", big_file_open(&f, p.c_str()), p); break; }
    case 1: named("opening a missing block", big_file_open_block(&bf, &bb, n.c_str()), p); break;
    case 2: mkdirs(p); put(p + "/header", "junk"); named("opening a block with a junk header", big_file_open_block(&bf, &bb, n.c_str()), p); break;
    case 3: mk(); shut(); put(p + "/header", "DTYPE: <i4\nNMEMB: -3\nNFILE: 0\n"); named("opening a block with a bad header", big_file_open_block(&bf, &bb, n.c_str()), p); break;
    case 4: named("creating with a bad type", big_file_create_block(&bf, &bb, n.c_str(), "i", 1, 3, fs), p); break;
    case 5: named("creating with a bad nmemb", big_file_create_block(&bf, &bb, n.c_str(), "i4", -1, 3, fs), p); break;
    case 6: named("creating with a bad Nfile", big_file_create_block(&bf, &bb, n.c_str(), "i4", 1, -1, fs), p); break;
    case 7: { str top = n.substr(0, n.find('/')); put("bf/" + top, "a file"); named("creating below a file", big_file_create_block(&bf, &bb, n.c_str(), "i4", 1, 3, fs), n.find('/') == str::npos ? p : "bf/" + n.substr(0, n.find('/'))); break; }
    case 8: mk(); named("reading beyond the end", rd_at(&bb, 1, 5, s, "<i4", 1), p); shut(); break;
    case 9: mk(); named("writing beyond the end", wr_at(&bb, 2, str(8, 'x'), "<i4", 1), p); shut(); break;
    case 10: mk(); unlink((p + "/000000").c_str()); named("reading a missing data file", rd_at(&bb, 0, 1, s, "<i4", 1), p + "/000000"); shut(); break;
    case 11: mk(); unlink((p + "/000002").c_str()); named("writing to a missing data file", wr_at(&bb, 2, "abcd", "<i4", 1), p + "/000002"); shut(); break;
    case 12: mk(); put(p + "/000002", "ab"); named("reading a short data file", rd_at(&bb, 1, 2, s, "<i4", 1), p); shut(); break;
    case 13: mk(); some("seeking beyond the end", big_block_seek(&bb, &ptr, 9)); shut(); break;
    case 14: mk(); some("an unsupported conversion", wr_at(&bb, 0, str(16, 'c'), "c16", 1)); shut(); break;
    case 15: mk(); { str a = "attr-" + n.substr(0, n.find('/')); named("getting a missing attribute", big_block_get_attr(&bb, a.c_str(), buf, "i4", 1) , a == "attr-" ? "" : a.substr(0, 0)); named("removing a missing attribute", big_block_remove_attr(&bb, a.c_str()), a); some("setting a bad attribute", big_block_set_attr(&bb, a.c_str(), buf, "i4", -1)); named("setting a bad attribute", big_block_set_attr(&bb, a.c_str(), buf, "i4", -1), a); } shut(); break;
    case 16: mk(); OK(big_block_set_attr(&bb, "k", buf, "i4", 1)); some("getting with a wrong length", big_block_get_attr(&bb, "k", buf, "i4", 2)); some("getting with a wrong type", big_block_get_attr(&bb, "k", buf, "c8", 1)); shut(); break;
    case 17: mk(); { size_t g[1] = {SIZE_MAX}; named("growing too much", big_block_grow(&bb, 1, g), p); } shut(); break;
    case 18: mk(); shut(); put(p + "/attr-v2", "k <i4 1\n"); named("opening a block with a malformed attribute file", big_file_open_block(&bf, &bb, n.c_str()), p); break;
    case 19: { BigRecordType r; memset(&r, 0, sizeof r); big_record_type_add(&r, n.c_str(), "i4", 1); big_record_type_complete(&r); named("reading records of a missing block", big_file_read_records(&bf, &r, 0, 1, buf), p); named("appending records to a missing block", big_file_create_records(&bf, &r, "a+", 1, fs), p); some("an unknown mode", big_file_create_records(&bf, &r, "x", 1, fs)); mk(); shut(); named("records beyond the end", big_file_write_records(&bf, &r, 2, 4, buf), p); big_record_type_clear(&r); break; }
    case 20: { BigFile f; put("bf/plain", "x"); str q = "bf/plain/" + n; named("creating a file below a plain file", big_file_create(&f, q.c_str()), "bf/plain"); break; }
    default: { mk(); BigArray a; memset(&a, 0, sizeof a); some("a convenience read beyond the end", big_block_read_simple(&bb, 17, 1, &a, NULL)); shut(); break; }
    }
    OK(big_file_close(&bf));
}
static void keep() {     // successful calls leave the message of an earlier failure alone
    str n = nm(); mc_split(); mc_wipe("bf"); OK(big_file_create(&bf, "bf")); BigBlock bb; str p = "bf/" + n; size_t fs[2] = {2, 1}; named("opening a missing block", big_file_open_block(&bf, &bb, n.c_str()), p); const char *m = big_file_get_error_message(); str before = m;
    auto same = [&](const char *what) { const char *q = big_file_get_error_message(); mc_transitions(); MC_CHECK(q && before == q, "%s changed the message to '%s'", what, q ? show(q).c_str() : "(null)"); MC_CHECK(before == m, "%s changed the memory of the message", what); };
    OK(big_file_create_block(&bf, &bb, n.c_str(), "i4", 1, 2, fs)); same("create"); OK(wr_at(&bb, 0, str(12, 'a'), "<i4", 1)); same("write"); str s; OK(rd_at(&bb, 0, 3, s, "<i4", 1)); same("read"); OK(big_block_set_attr(&bb, "k", "abcd", "S1", 4)); same("set attribute"); char b[8]; OK(big_block_get_attr(&bb, "k", b, "S1", 4)); same("get attribute"); OK(big_block_grow(&bb, 1, fs)); same("grow"); OK(big_block_flush(&bb)); same("flush"); OK(big_block_remove_attr(&bb, "k")); same("remove attribute"); OK(big_block_close(&bb)); same("close"); OK(big_file_open_block(&bf, &bb, n.c_str())); same("open"); size_t rows; OK(rd_simple(&bb, 0, 3, s, rows, "<f8")); same("read_simple"); OK(big_block_close(&bb)); same("close");
    char **l; int k; OK(big_file_list(&bf, &l, &k)); for (int i = 0; i < k; i++) free(l[i]); free(l); same("list"); OK(big_file_close(&bf)); same("closing the file"); OK(big_file_open(&bf, "bf")); same("opening the file"); OK(big_file_close(&bf));
    for (int i = 0; i < 3; i++) { BigFile f; str q = "bf/none" + std::to_string(i) + n; named("opening a missing file", big_file_open(&f, q.c_str()), q); }
}
static void setget() {   // setting and clearing at any time
    static const std::vector<str> ms = {"", "a", "%s%n", "line\nline", str(127, 'x'), str(1024, 'y'), str(4096, '%'), str(8000, 'z')}; int a = mc_choose(9), b = mc_choose(9), c = mc_choose(9); mc_split();
    auto set = [&](int i) { if (i == 8) { big_file_set_error_message(NULL); MC_CHECK(big_file_get_error_message() == NULL, "clearing left a message"); } else { Buf x(ms[i] + str(1, 0)); big_file_set_error_message(x.p); memset(x.p, 'Q', x.n); MC_CHECK(ms[i] == big_file_get_error_message(), "the message set is not the one read back"); } mc_transitions(); };
    set(a); set(b); BigFile f; if (mc_choose(2)) named("opening a missing file", big_file_open(&f, "bf/%s/none"), "bf/%s/none"); set(c); if (c != 8) { big_file_set_error_message(big_file_get_error_message()); MC_CHECK(ms[c] == big_file_get_error_message(), "setting the message to itself changed it"); }
}
static void run() { big_file_set_buffer_size(4096); switch (mc_choose(3)) { case 0: return failures(); case 1: return keep(); default: return setget(); } }
int main(int c, char **v) { mc_track_module("libbf"); McOpts o; o.property = "C26"; o.run = run; return mc_main(c, v, o); }
