// C19: text form of values.
#include "bf.h"
#include <math.h>
#include <complex>
static const char PFX[] = {'<', '>', '=', 0, '|'};
static str ty(const char *t, int p) { return PFX[p] ? str(1, PFX[p]) + t : str(t); }
template <class T> static str enc(T v, int p, int halves = 1) { str s((char *)&v, sizeof v); if (p == 1) { size_t h = s.size() / halves; for (int i = 0; i < halves; i++) std::reverse(s.begin() + i * h, s.begin() + (i + 1) * h); } return s; }
// formats into a buffer exactly as long as the expected text; the value sits in an exact buffer too
static void fmt1(const str &t, const str &val, const str &want, const char *f) {
    Buf d(val), o(want.size() + 1, 0x7E), dt(t + str(1, 0)); big_file_dtype_format(o.p, dt.p, d.p, f); mc_transitions();
    MC_CHECK(str(o.p, want.size()) == want && o.p[want.size()] == 0, "formatting %s of type %s gives '%s', expected '%s'", hex(val).c_str(), t.c_str(), show(str(o.p, o.n)).c_str(), want.c_str());
    MC_CHECK(d.s() == val, "formatting changed the value of type %s", t.c_str()); mc_state(mc_hash_str(want + t));
}
static void parse1(const str &t, const str &text, const str &want, const char *f) {
    Buf d(want.size(), 0x7E), x(text + str(1, 0)), dt(t + str(1, 0)); int rt = big_file_dtype_parse(x.p, dt.p, d.p, f); mc_transitions();
    MC_CHECK(rt == 0, "parsing '%s' as %s failed", text.c_str(), t.c_str()); MC_CHECK(d.s() == want, "parsing '%s' as %s gives %s, expected %s", text.c_str(), t.c_str(), hex(d.s()).c_str(), hex(want).c_str()); MC_CHECK(x.s() == text + str(1, 0), "parsing changed the text");
}
static std::vector<long long> ints() { std::vector<long long> v; for (int i = -300; i <= 300; i++) v.push_back(i); for (int k = 8; k < 64; k++) for (int d = -2; d <= 2; d++) { v.push_back((long long)((1ull << k) + d)); v.push_back((long long)(0 - (1ull << k) + d)); } for (long long p = 1000; p < 1000000000000000000ll && p > 0; p *= 10) { v.push_back(p); v.push_back(p - 1); v.push_back(-p); } return v; }
template <class T> static void integer(const char *t, const char *f, const char *wide) {
    int p = mc_choose(5); mc_split(); auto vs = ints(); int k = mc_choose(((int)vs.size() + 63) / 64); mc_note("integers as %s", ty(t, p).c_str());
    for (int i = k * 64; i < (int)vs.size() && i < k * 64 + 64; i++) { T v = (T)vs[i]; str w = std::to_string(v); fmt1(ty(t, p), enc(v, p), w, NULL); fmt1(ty(t, p), enc(v, p), sprintfs(wide, v), wide); parse1(ty(t, p), w, enc(v, p), NULL); parse1(ty(t, p), "  " + w, enc(v, p), NULL); parse1(ty(t, p), w, enc(v, p), f);
        bool neg = w[0] == '-'; str z = (neg ? "-000" : "000") + w.substr(neg); parse1(ty(t, p), z, enc(v, p), NULL); parse1(ty(t, p), "\t\n " + z + " 5", enc(v, p), NULL); parse1(ty(t, p), w + "\n", enc(v, p), NULL); parse1(ty(t, p), w + "xyz", enc(v, p), NULL); if (!neg) { parse1(ty(t, p), "+" + w, enc(v, p), NULL); parse1(ty(t, p), "+0" + w, enc(v, p), NULL); } }
}
static str dec(int m, int e) { char b[64]; snprintf(b, sizeof b, "%de%d", m, e); return b; }
static const int MANT[] = {0, 1, -1, 2, 5, -7, 10, 25, 99, -125, 333, 1024, -4096, 31416, 100000, 999999, -999999, 123456, 65535, 7};
template <class T> static T val(const str &s) { return sizeof(T) == 4 ? (T)strtof(s.c_str(), 0) : (T)strtod(s.c_str(), 0); }
template <class T> static void real(const char *t, const char *f, int emax) {
    int p = mc_choose(5), m = mc_choose(mc_thorough() ? 20 : 20); mc_split(); mc_note("%d * 10^e as %s", MANT[m], ty(t, p).c_str());
    for (int e = -emax; e <= emax - 6; e++) { str s = dec(MANT[m], e); T v = val<T>(s); parse1(ty(t, p), s, enc(v, p), NULL); parse1(ty(t, p), s, enc(v, p), f); str w = sprintfs("%g", v); fmt1(ty(t, p), enc(v, p), w, NULL); fmt1(ty(t, p), enc(v, p), sprintfs("[%020.17g]", v), "[%020.17g]"); parse1(ty(t, p), w, enc(v, p), NULL);
        str plain = sprintfs(sizeof(T) == 4 ? "%.9g" : "%.17g", v); parse1(ty(t, p), plain, enc(v, p), NULL);
        bool neg = plain[0] == '-'; parse1(ty(t, p), (neg ? "-00" : "00") + plain.substr(neg), enc(v, p), NULL); parse1(ty(t, p), "\t\n " + plain + " 5", enc(v, p), NULL); if (!neg) parse1(ty(t, p), "+" + plain, enc(v, p), NULL); }
    T inf = INFINITY; fmt1(ty(t, p), enc(inf, p), "inf", NULL); fmt1(ty(t, p), enc((T)-inf, p), "-inf", NULL); parse1(ty(t, p), "inf", enc(inf, p), NULL); fmt1(ty(t, p), enc((T)NAN, p), "nan", NULL); fmt1(ty(t, p), enc((T)-0.0, p), "-0", NULL); parse1(ty(t, p), "-0", enc((T)-0.0, p), NULL);
}
template <class T> static void cplx(const char *t, const char *f, int emax) {
    int p = mc_choose(5), a = mc_choose(20), b = mc_choose(20); mc_split(); mc_note("complex %d %d as %s", MANT[a], MANT[b], ty(t, p).c_str());
    for (int e = -emax; e <= emax - 6; e += 3) { int e2 = -e / 2 - 1; T r = val<T>(dec(MANT[a], e)), i = val<T>(dec(MANT[b], e2)); std::complex<T> v(r, i); str w = sprintfs("%g+%gI", r, i); fmt1(ty(t, p), enc(v, p, 2), w, NULL); parse1(ty(t, p), w, enc(v, p, 2), NULL); parse1(ty(t, p), w, enc(v, p, 2), f); parse1(ty(t, p), sprintfs(" %g + %g I", r, i), enc(v, p, 2), NULL); fmt1(ty(t, p), enc(v, p, 2), sprintfs("(%.17g,%.17g)", r, i), "(%.17g,%.17g)"); }
}
static void bytes() {
    int p = mc_choose(5); mc_split(); for (int c = 1; c < 256; c++) { str v(1, (char)c); fmt1(ty("a1", p), v, v, NULL); parse1(ty("a1", p), v, v, NULL); parse1(ty("a1", p), v + "rest", v, NULL); }
    for (int c = 0; c < 2; c++) fmt1(ty("b1", p), str(1, (char)c), c ? "1" : "0", NULL);
}
static void notnumbers() {     // text without a number, and types without a text form, are errors
    static const std::vector<str> tys = {"i4", "i8", "u4", "u8", "f4", "f8", "c8", "c16"}, bad = {"", " ", "abc", "-", "+", ".", "x1", "\t\n", "--1", "e5", "%d", "#", "I", "+I"}; int t = mc_choose(8), p = mc_choose(5), b = mc_choose(14); mc_split(); str dt = ty(tys[t].c_str(), p); Buf d(width(dt), 0x7E), x(bad[b] + str(1, 0)); mc_note("'%s' as %s", show(bad[b]).c_str(), dt.c_str());
    MC_CHECK(big_file_dtype_parse(x.p, dt.c_str(), d.p, NULL) != 0, "parsing '%s' as %s succeeded", show(bad[b]).c_str(), dt.c_str()); mc_transitions();
    if (tys[t][0] == 'c') { static const char *half[] = {"1", "1+", "1+I", "1+xI", "I", "+2I"}; for (auto h : half) MC_CHECK(big_file_dtype_parse(h, dt.c_str(), d.p, NULL) != 0, "parsing '%s' as %s succeeded", h, dt.c_str()); }
}
static void unsupported() {    // any type string
    static const std::vector<str> tys = {"S1", "S2", "S5", "S127", "S128", "S129", "S200", "S99999", "V8", "V300", "U4", "f2", "f16", "i1", "i2", "u1", "u2", "M8", "b2", "a5", "a200", "c32", "x1", "O8", "b1"}; int t = mc_choose((int)tys.size()), p = mc_choose(4); mc_split(); str dt = ty(tys[t].c_str(), p); mc_note("type %s", dt.c_str());
    str v = rowpat(3, t, width(tys[t])); Buf d(v), x(str("12\0", 3)); mc_transitions(); MC_CHECK(big_file_dtype_parse(x.p, dt.c_str(), d.p, NULL) != 0, "parsing as %s succeeded", dt.c_str()); MC_CHECK(d.s() == v, "a refused parse changed the value");
    if (tys[t] == "b1") return; Buf o(64, 0x7E); big_file_dtype_format(o.p, dt.c_str(), d.p, NULL); MC_CHECK(memchr(o.p, 0, 64), "the text of type %s is not terminated", dt.c_str()); MC_CHECK(d.s() == v, "formatting changed the value"); str o1 = o.p; MC_CHECK(o1.size() < 16, "strange text '%s'", o1.c_str());
    // and as an attribute, whose human readable text is stored
    mc_wipe("bf"); BigFile bf; BigBlock bb; OK(big_file_create(&bf, "bf")); OK(big_file_create_block(&bf, &bb, "x", NULL, 0, 0, NULL)); if (big_block_set_attr(&bb, "k", d.p, dt.c_str(), 1) == 0) { OK(big_block_close(&bb)); OK(big_file_open_block(&bf, &bb, "x")); Buf g(v.size()); OK(big_block_get_attr(&bb, "k", g.p, dt.c_str(), 1)); MC_CHECK(g.s() == v, "the attribute changed"); } OK(big_block_close(&bb)); OK(big_file_close(&bf));
}
static void human() {          // the readable comment of a stored attribute is the text of its values
    static const std::vector<str> tys = {"i4", "i8", "u4", "u8", "f4", "f8", "c8", "c16", "b1"}; int t = mc_choose(9), p = mc_choose(5), n = 1 + mc_choose(3); mc_split(); str dt = ty(tys[t].c_str(), p), v; int w = width(tys[t]); std::vector<str> texts;
    for (int i = 0; i < n; i++) { int m = MANT[1 + i * 3 + t]; str e; switch (t) { case 0: e = enc((int)m, p); break; case 1: e = enc((long)m, p); break; case 2: e = enc((unsigned)abs(m), p); break; case 3: e = enc((unsigned long)abs(m), p); break; case 4: e = enc((float)m, p); break; case 5: e = enc((double)m, p); break; case 6: e = enc(std::complex<float>(m, 2), p, 2); break; case 7: e = enc(std::complex<double>(m, 2), p, 2); break; default: e = str(1, (char)(i & 1)); } v += e; texts.push_back(t < 6 ? sprintfs("%g", (double)(t == 2 || t == 3 ? abs(m) : m)) : t < 8 ? sprintfs("%g+2I", (double)m) : std::to_string(i & 1)); if (t < 4) texts.back() = std::to_string(t >= 2 ? abs(m) : m); }
    mc_wipe("bf"); BigFile bf; BigBlock bb; OK(big_file_create(&bf, "bf")); OK(big_file_create_block(&bf, &bb, "x", NULL, 0, 0, NULL)); Buf d(v); OK(big_block_set_attr(&bb, "k", d.p, dt.c_str(), n)); OK(big_block_close(&bb)); OK(big_file_close(&bf)); MC_CHECK(d.s() == v, "changed"); str f = slurp("bf/x/attr-v2"); mc_transitions(); str want = "#HUMANE [ "; for (auto &x : texts) want += x + " "; want += "]"; (void)w;
    MC_CHECK(f.find(want) != str::npos, "attribute file is '%s', expected the comment '%s'", show(f).c_str(), want.c_str()); MC_CHECK(f.find(hex(v)) != str::npos, "attribute file is '%s', expected the bytes %s", show(f).c_str(), hex(v).c_str());
}
static void run() {
    switch (mc_choose(12)) {
    case 0: return integer<int>("i4", "%d", "<%012d>"); case 1: return integer<long>("i8", "%ld", "<%+ld>"); case 2: return integer<unsigned>("u4", "%u", "<%8u>"); case 3: return integer<unsigned long>("u8", "%lu", "<%-30lu>");
    case 4: return real<float>("f4", "%f", 30); case 5: return real<double>("f8", "%lf", 290); case 6: return cplx<float>("c8", "%f + %f I", 30); case 7: return cplx<double>("c16", "%lf + %lf I", 290);
    case 8: return bytes(); case 9: return notnumbers(); case 10: return unsupported(); default: return human(); }
}
int main(int c, char **v) { mc_track_module("libbf"); McOpts o; o.property = "C19"; o.run = run; return mc_main(c, v, o); }
