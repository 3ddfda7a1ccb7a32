// C10: malformed files give clean errors, never memory corruption or invented data.
#include "bf.h"
static BigFile bf;
struct At { str dt; int nm; str data; bool operator==(const At &o) const { return dt == o.dt && nm == o.nm && data == o.data; } };
typedef std::map<str, At> Map;
struct Base { str dt; int nm; sizes_t fs; std::map<str, str> f; };      // file name -> content
static str v1rec(const str &n, const str &dt, int nm, const str &d) { int l = n.size(); char b[8] = {0}; strcpy(b, dt.c_str()); return str((char *)&nm, 4) + str((char *)&l, 4) + str(b, 8) + n + d; }
static str v2line(const str &n, const str &dt, int nm, const str &d, const str &txt) { return n + " " + dt + " " + std::to_string(nm) + " " + hex(d) + " #HUMANE [ " + txt + " ]\n"; }
static Base base(int k) {
    Base b; b.dt = k == 1 ? ">f8" : "<i4"; b.nm = k == 1 ? 1 : 2; b.fs = k == 1 ? sizes_t{2} : sizes_t{3, 0, 1}; size_t rs = width(b.dt) * b.nm; std::vector<unsigned> sums; size_t r0 = 0;
    for (size_t i = 0; i < b.fs.size(); i++) { str d; for (size_t r = 0; r < b.fs[i]; r++) d += rowpat(4, r0 + r, rs); r0 += b.fs[i]; b.f[fname(i)] = d; sums.push_back(bytesum(d)); }
    b.f["header"] = make_header(b.dt, b.nm, b.fs, sums);
    b.f["attr-v2"] = v2line("abc", "<i4", 2, "\x01\x02\x03\x04zzzz", "67305985 2054847098") + v2line("e", "<S1", 0, "", "") + v2line("s", "<S1", 3, "xyz", "xyz");
    b.f["attr"] = v1rec("old", "<f4", 1, "abcd") + v1rec("zz", "<S1", 5, "hello"); return b;
}
static bool dtok(const str &d) { if (d.find((char)0) != str::npos || d.size() < 3 || d.size() > 7 || !strchr("<>|=", d[0]) || !strchr("Sbifuca", d[1])) return false; for (size_t i = 2; i < d.size(); i++) if (!isdigit((unsigned char)d[i])) return false; int w = atoi(d.c_str() + 2); return w > 0 && w <= 16; }
static bool adtok(const str &d) { if (d.find((char)0) != str::npos || d.empty() || d.size() > 7) return false; bool p = strchr("<>|=", d[0]); str t = p ? d.substr(1) : d; if (!p && d.size() > 6) return false; if (t.size() < 2 || !isalpha((unsigned char)t[0])) return false; for (size_t i = 1; i < t.size(); i++) if (!isdigit((unsigned char)t[i])) return false; return atoi(t.c_str() + 1) > 0; }
static str nrm(str d) { if (!strchr("<>|=", d[0])) d = "=" + d; if (d[0] == '=' || d[0] == '|') d[0] = '<'; return d; }
// ---- what the header says (white space where the format has any); false: it says nothing usable
struct Says { str dtype; int nmemb; sizes_t fs; std::vector<unsigned> sum; };
struct Lex { const str &s; size_t p = 0; void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; } bool lit(const char *l) { size_t n = strlen(l); if (s.compare(p, n, l)) return false; p += n; return true; }
    bool num(unsigned long long max, unsigned long long &v) { ws(); size_t b = p; unsigned __int128 x = 0; while (p < s.size() && isdigit((unsigned char)s[p])) { x = x * 10 + (s[p] - '0'); if (x > ((unsigned __int128)1 << 70)) x = (unsigned __int128)1 << 70; p++; } if (p == b || x > max) return false; v = x; return true; }
    bool word(str &w) { ws(); size_t b = p; while (p < s.size() && !isspace((unsigned char)s[p])) p++; w = s.substr(b, p - b); w = w.c_str(); return p > b; } };
static bool says(const str &t, Says &o) {
    Lex x{t}; unsigned long long v; x.ws(); if (!x.lit("DTYPE:") || !x.word(o.dtype) || !dtok(o.dtype)) return false; x.ws(); if (!x.lit("NMEMB:") || !x.num(2147483647, v)) return false; o.nmemb = v; x.ws(); if (!x.lit("NFILE:") || !x.num(2147483647, v)) return false; size_t nf = v; if (nf > t.size()) return false;
    o.fs.assign(nf, 0); o.sum.assign(nf, 0); std::vector<char> seen(nf, 0); unsigned __int128 tot = 0;
    for (size_t i = 0; i < nf; i++) { x.ws(); size_t b = x.p; while (x.p < t.size() && isxdigit((unsigned char)t[x.p]) && x.p - b < 6) x.p++; if (x.p == b) return false; size_t id = strtoul(t.substr(b, x.p - b).c_str(), 0, 16); if (!x.lit(":") || id >= nf || seen[id]) return false; seen[id] = 1; unsigned long long sz, a, c; if (!x.num(INT64_MAX, sz)) return false; x.ws(); if (!x.lit(":") || !x.num(UINT32_MAX, a)) return false; x.ws(); if (!x.lit(":") || !x.num(UINT32_MAX, c)) return false; o.fs[id] = sz; o.sum[id] = a; tot += sz; }
    if ((long)width(o.dtype) * o.nmemb > INT32_MAX) return false; if (tot * (unsigned)std::max<long>(1, (long)width(o.dtype) * o.nmemb) > INT64_MAX) return false;
    return true;
}
static bool strict(const str &t, const Says &s) { return (s.dtype[0] == '<' || s.dtype[0] == '>') && t == make_header(s.dtype, s.nmemb, s.fs, s.sum); }
static bool attr2(const str &t, Map &m, bool &strict_) {   // false: malformed
    size_t p = 0; strict_ = true;
    while (p < t.size()) { auto blank = [&]() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t')) { if (t[p] == '\t') strict_ = false; p++; } }; size_t line = p;
        auto word = [&](str &w) { blank(); size_t b = p; while (p < t.size() && t[p] != ' ' && t[p] != '\t' && t[p] != '\n' && t[p]) p++; w = t.substr(b, p - b); bool ok = p > b && p < t.size() && (t[p] == ' ' || t[p] == '\t'); p++; return ok; };
        str n, d, l, h; if (!word(n) || !word(d) || !word(l) || !adtok(d)) return false; char *e_; errno = 0; long nm = strtol(l.c_str(), &e_, 10); if (l.empty() || *e_ || nm < 0 || errno || nm > (long)t.size()) return false; long len = nm * atoi(nrm(d).c_str() + 2); if (len) { if (!word(h)) return false; if ((long)h.size() != 2 * len || h.find_first_not_of("0123456789abcdefABCDEF") != str::npos) return false; }
        str data; for (long i = 0; i < len; i++) data += (char)strtol(h.substr(2 * i, 2).c_str(), 0, 16); if (m.count(n) || nrm(d) != d || h != hex(data)) strict_ = false; m[n] = {nrm(d), (int)nm, data};
        size_t e = t.find('\n', line); str want = n + " " + d + " " + l + " " + h + " #HUMANE [ "; if (t.compare(line, want.size(), want) || e == str::npos || e < p || std::to_string(nm) != l) strict_ = false; p = std::min(p, t.size()); while (p < t.size() && t[p] != '\n') { if (!t[p]) strict_ = false; p++; } if (p < t.size()) p++; }
    return true;
}
static bool attr1(const str &t, Map &m) { size_t p = 0; while (p < t.size()) { if (p + 16 > t.size()) return false; int nm, l; memcpy(&nm, &t[p], 4); memcpy(&l, &t[p + 4], 4); char d[9] = {0}; memcpy(d, &t[p + 8], 8); p += 16; if (nm < 0 || l <= 0 || !dtok(d)) return false; size_t len = (size_t)nm * width(d); if (p + l > t.size() || p + l + len > t.size()) return false; str n = t.substr(p, l); if (n.find_first_of(str(" \t\n\0", 4)) != str::npos) return false; m[n] = {nrm(d), nm, t.substr(p + l, len)}; p += l + len; } return true; }
static void lay(const Base &b) { mc_wipe("."); mkdirs("bf/b"); for (auto &x : b.f) put("bf/b/" + x.first, x.second); OK(big_file_open(&bf, "bf")); }
static void usemsg(const char *what) { const char *e = big_file_get_error_message(); MC_CHECK(e && *e, "%s failed without a message", what); }
static void examine(const Base &b, const str &ctx) {
    lay(b); mc_note("%s", ctx.c_str()); big_file_set_buffer_size(64); big_file_set_error_message((char *)"");
    Says s; Map m; bool st2 = true; bool hok = b.f.count("header") && says(b.f.at("header"), s); bool a1 = !b.f.count("attr") || attr1(b.f.at("attr"), m); bool a2 = !b.f.count("attr-v2") || attr2(b.f.at("attr-v2"), m, st2);
    BigBlock bb; int rt = big_file_open_block(&bf, &bb, "b"); mc_transitions(); mc_state(mc_hash(&rt, 4, hok + 2 * a1 + 4 * a2 + mc_hash_str(b.f.count("header") ? b.f.at("header") : "", m.size())));
    if (rt) { usemsg("opening a block"); if (hok && a1 && a2 && st2 && strict(b.f.at("header"), s)) mc_fail("%s: a well formed block was refused: %s", ctx.c_str(), errmsg()); mc_count(0); big_file_close(&bf); return; }
    mc_count(1);
    MC_CHECK(hok, "%s: opened though the header is malformed: '%s' (dtype %s nmemb %d Nfile %d size %zu)", ctx.c_str(), show(b.f.count("header") ? b.f.at("header") : "(missing)").c_str(), bb.dtype, bb.nmemb, bb.Nfile, bb.size); MC_CHECK(a1, "%s: opened though the legacy attribute file is malformed", ctx.c_str()); MC_CHECK(a2, "%s: opened though the attribute file is malformed: '%s'", ctx.c_str(), show(b.f.at("attr-v2")).c_str());
    MC_CHECK(s.dtype == bb.dtype || nrm(s.dtype) == bb.dtype, "%s: type is %s, the header says %s", ctx.c_str(), bb.dtype, s.dtype.c_str()); MC_CHECK(bb.nmemb == s.nmemb && bb.Nfile == (int)s.fs.size() && bb.size == total(s.fs), "%s: nmemb %d Nfile %d size %zu; the header says %d %zu %zu", ctx.c_str(), bb.nmemb, bb.Nfile, bb.size, s.nmemb, s.fs.size(), total(s.fs));
    for (size_t i = 0; i < s.fs.size(); i++) MC_CHECK(bb.fsize[i] == s.fs[i] && bb.fchecksum[i] == s.sum[i], "%s: file %zu has %zu rows and checksum %u, the header says %zu %u", ctx.c_str(), i, bb.fsize[i], bb.fchecksum[i], s.fs[i], s.sum[i]);
    size_t cnt; BigAttr *l = big_block_list_attrs(&bb, &cnt); MC_CHECK(cnt == m.size(), "%s: %zu attributes, the files say %zu", ctx.c_str(), cnt, m.size()); for (size_t i = 0; i < cnt; i++) { MC_CHECK(m.count(l[i].name), "%s: invented attribute '%s'", ctx.c_str(), show(l[i].name).c_str()); At &a = m[l[i].name]; MC_CHECK(a.nm == l[i].nmemb && a.dt == l[i].dtype && !memcmp(a.data.data(), l[i].data, a.data.size()), "%s: attribute '%s' is not what the file says", ctx.c_str(), show(l[i].name).c_str()); }
    // rows
    size_t rs = (size_t)width(s.dtype) * s.nmemb, at = 0, N = bb.size; if (rs > 0 && rs < 4096 && total(s.fs) > 0) {
        std::vector<std::pair<size_t, size_t>> where; for (size_t f = 0; f < s.fs.size() && where.size() < 40; f++) for (size_t r = 0; r < s.fs[f] && where.size() < 40; r++) where.push_back({f, r});
        auto row = [&](size_t k, str &o) { auto it = b.f.find(fname(where[k].first)); if (it == b.f.end()) return false; size_t q = where[k].second * rs; if (q + rs > it->second.size()) return false; o = it->second.substr(q, rs); return true; };
        for (size_t k = 0; k < where.size(); k++) { str g, w; int r = rd_at(&bb, k, 1, g, s.dtype.c_str(), s.nmemb); bool have = row(k, w); MC_CHECK((r == 0) == have, "%s: reading row %zu returned %d, the data file %s it: %s", ctx.c_str(), k, r, have ? "has" : "does not have", errmsg()); if (have) MC_CHECK(g == w, "%s: row %zu reads %s, the file has %s", ctx.c_str(), k, hex(g).c_str(), hex(w).c_str()); else usemsg("reading"); }
        size_t n = std::min<size_t>(N, 40); str g, w, r1; bool have = true; for (size_t k = 0; k < n && have; k++) { have = row(k, r1); w += r1; } size_t rows; int r = rd_simple(&bb, 0, n, g, rows, NULL); MC_CHECK((r == 0) == have, "%s: read_simple of %zu rows returned %d", ctx.c_str(), n, r); if (have) MC_CHECK(g == w, "%s: read_simple gave other data", ctx.c_str());
        if (N > 40) { r = rd_at(&bb, N - 1, 1, g, s.dtype.c_str(), s.nmemb); size_t lf = s.fs.size() - 1; while (!s.fs[lf]) lf--; auto it = b.f.find(fname(lf)); bool st = it != b.f.end() && s.fs[lf] <= it->second.size() / rs; MC_CHECK((r == 0) == st, "%s: reading the last row %zu, which is%s stored, returned %d", ctx.c_str(), N - 1, st ? "" : " not", r); }
    }
    // it stays usable: an attribute can be added and everything is still there
    int five = 5; OK(big_block_set_attr(&bb, "five", &five, "<i4", 1)); OK(big_block_close(&bb)); OK(big_file_open_block(&bf, &bb, "b")); l = big_block_list_attrs(&bb, &cnt); m["five"]; MC_CHECK(cnt == m.size() && bb.size == N, "%s: after adding an attribute: %zu attributes size %zu", ctx.c_str(), cnt, bb.size); OK(big_block_close(&bb)); OK(big_file_close(&bf));
}
static const char *FILES[] = {"header", "attr-v2", "attr"};
static void run() {
    int mode = mc_choose(7); int k = mc_choose(2);
    Base b = base(k);
    if (mode == 0) { std::vector<str> fs; for (auto &x : b.f) fs.push_back(x.first); const str &f = mc_pick(fs); mc_split(); size_t n = mc_choose(b.f[f].size() + 1); b.f[f].resize(n); examine(b, sprintfs("%s truncated to %zu bytes", f.c_str(), n)); }
    else if (mode == 1) { str f = FILES[mc_choose(3)]; size_t n = mc_choose(b.f[f].size()); mc_split(); static const int q[] = {0, ' ', '\n', '\t', '0', '9', '-', '+', 'a', 'F', '%', '/', ':', '<', 'S', '.', 0x7f, 0xff, '1', '\r'}; int c = mc_thorough() ? mc_choose(256) : q[mc_choose(20)]; b.f[f][n] = c; examine(b, sprintfs("%s byte %zu is %02x", f.c_str(), n, c)); }
    else if (mode == 2) {   // hostile header fields, two at a time
        static const std::vector<str> D = {"<i4", "i4", "<i0", "<i-4", "<i17", "<S16", "<i99999999999999999999999", "<", "", "DDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDDD", "<x4", "%s%n%s", "=i4", "|S1", "<i4x", "<i 4", "<c16", "<i00004", "<i000004", "<i0000004"}, M = {"2", "0", "-1", "2147483647", "2147483648", "4294967298", "99999999999999999999", "", "x", "1e3", "536870911", "536870912", "0x2", "+2", "2.5", " 2"}, N = {"3", "0", "2", "4", "-1", "2147483645", "2147483646", "2147483647", "4294967299", "99999999999999999999", "", "x", "3 3", "1000000", "0x3"};
        static const std::vector<str> L = {"000001: 0 : 0 : 0", "000000: 0 : 0 : 0", "000003: 0 : 0 : 0", "FFFFFF: 0 : 0 : 0", "1: 0 : 0 : 0", "-00001: 0 : 0 : 0", "000001: -1 : 0 : 0", "000001: 9223372036854775807 : 0 : 0", "000001: 18446744073709551615 : 0 : 0", "000001: 18446744073709551616 : 0 : 0", "000001: 4611686018427387904 : 0 : 0", "000001: 1000000 : 0 : 0", "000001: 0 : -1 : 0", "000001: 0 : 4294967295 : 0", "000001: 0 : 4294967296 : 0", "000001: 0 : 0", "000001: 0", "000001:", "", "000001 : 0 : 0 : 0", "000001: 0 : 0 : 99999999999999", "000001: 0:0:0", "00001G: 0 : 0 : 0", "0x1: 0 : 0 : 0", "0000001: 0 : 0 : 0", "000001: 1 : 0 : 0", "zz"};
        int a = mc_choose(4), c = mc_choose(4); mc_split(); if (a > c) return; auto pick = [&](int w) -> const str & { return w == 0 ? mc_pick(D) : w == 1 ? mc_pick(M) : w == 2 ? mc_pick(N) : mc_pick(L); }; str v[4] = {b.dt, std::to_string(b.nm), std::to_string(b.fs.size()), "000001: 0 : 0 : 0"}; b = base(0); v[0] = "<i4"; v[1] = "2"; v[2] = "3"; v[a] = pick(a); if (c != a) v[c] = pick(c); else if (a == 3 && k) v[2] = "2";
        b.f["header"] = "DTYPE: " + v[0] + "\nNMEMB: " + v[1] + "\nNFILE: " + v[2] + "\n000000: 3 : " + std::to_string(bytesum(b.f["000000"])) + " : 0\n" + v[3] + "\n000002: 1 : 77 : 77\n"; examine(b, "header " + show(b.f["header"])); }
    else if (mode == 3) {   // hostile attr-v2 lines
        static const std::vector<str> Nm = {"x", "", "abc", str(400, 'n'), "%s%n", "#HUMANE"}, D = {"<i4", "", "<", "<i0", "<i-4", "i4", "<i44444444", "S3", "<S2147483647", "<S999999", "##", "i", "4"}, L = {"1", "0", "-1", "2", "2147483647", "536870912", "4294967297", "", "x", "1x", "99999999999999999999999"}, H = {"01020304", "", "0102030", "010203040506", "0102030g", "-1020304", "0x020304", "        ", "01020304\n"}, E = {" #HUMANE [ 1 ]\n", "\n", "", " ", " #HUMANE"};
        int first = mc_choose(6), s2 = mc_choose(13); mc_split(); const str &n = Nm[first], &d = D[s2], &l = mc_pick(L), &h = mc_pick(H); const str &e = mc_pick(E); str line = n + " " + d + " " + l + " " + h + e; str &t = b.f["attr-v2"]; t = k ? line : t + line; examine(b, "attr-v2 line " + show(line)); }
    else if (mode == 4) {   // hostile legacy records
        static const int NM[] = {1, 0, -1, 5, 1 << 30, INT32_MAX, INT32_MIN, 100000}, LN[] = {2, 0, -1, 1, 50, 1 << 30, INT32_MAX, INT32_MIN, 10000000}; static const std::vector<str> D = {"<i4", "", "i4", "<i4444444", "<i0", "<i-1", "<S16", "<S17", "AAAAAAAA", "<x4", "=f8"}; static const std::vector<str> Nm = {"ab", str("a\0", 2), "a ", "\n\n"};
        int nm = NM[mc_choose(8)], ln = LN[mc_choose(9)]; mc_split(); str d = mc_pick(D), n = mc_pick(Nm); size_t pad = mc_choose(2) * 4; d.resize(8); str rec = str((char *)&nm, 4) + str((char *)&ln, 4) + d + n + str(pad, 'p'); str &t = b.f["attr"]; t = k ? rec : t + rec; examine(b, "legacy record " + show(rec)); }
    else if (mode == 5) {   // missing files, swapped, emptied, replaced by each other, line edits
        std::vector<str> fs; for (auto &x : b.f) fs.push_back(x.first); const str &f = mc_pick(fs); mc_split(); int op = mc_choose(4 + (int)fs.size()); str ctx;
        if (op == 0) { b.f.erase(f); ctx = f + " is missing"; } else if (op == 1) { b.f[f] = ""; ctx = f + " is empty"; } else if (op == 2) { b.f[f] += b.f[f]; ctx = f + " twice"; } else if (op == 3) { size_t a = b.f[f].find('\n'); if (a == str::npos) return; int which = mc_choose(3); str &t = b.f[f]; if (which == 0) t = t.substr(a + 1); else if (which == 1) t = t.substr(0, a + 1) + t; else t = t.substr(a + 1) + t.substr(0, a + 1); ctx = f + " lines moved"; }
        else { b.f[f] = b.f[fs[op - 4]]; ctx = f + " replaced by " + fs[op - 4]; } examine(b, ctx); }
    else {                  // byte deleted or inserted
        str f = FILES[mc_choose(3)]; size_t n = mc_choose(b.f[f].size()); mc_split(); int c = mc_choose(8); if (c == 0) b.f[f].erase(n, 1); else b.f[f].insert(n, 1, " \n0\0-9:"[c - 1]); examine(b, sprintfs("%s byte %zu %s", f.c_str(), n, c ? "inserted" : "deleted")); }
}
int main(int c, char **v) { mc_track_module("libbf"); McOpts o; o.property = "C10"; o.run = run; o.counters[0] = "refused"; o.counters[1] = "accepted"; return mc_main(c, v, o); }
