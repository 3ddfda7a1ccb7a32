// C04: element type and byte-order conversion: every ordered pair of types and byte orders, boundary values.
#include "bf.h"
#include <math.h>
#include <limits>
static BigFile bf;
typedef long double LD; typedef std::vector<str> vals;   // native bytes of one element each
static const std::vector<str> NUM = {"i4", "i8", "u4", "u8", "f4", "f8"};
static const std::vector<str> ALL = {"i4", "i8", "u4", "u8", "f4", "f8", "b1", "c8", "c16", "S1", "S7", "i2", "u2", "i1", "S16", "a1"};
static const char *PRE[] = {"<", ">", "=", ""};
template <class T> static str B(T v) { return str((char *)&v, sizeof v); }
template <class T> static T U(const str &s) { T v; memcpy(&v, s.data(), sizeof v); return v; }
static str rev(const str &t, const str &s, char pre) { if (pre != '>') return s; str r = s; int w = s.size(); if (t[0] == 'c') { std::reverse(r.begin(), r.begin() + w / 2); std::reverse(r.begin() + w / 2, r.end()); } else std::reverse(r.begin(), r.end()); return r; }
template <class D, class S> static bool fits(S v) { LD x = v; if (std::is_floating_point<D>::value) return true; if (x != x) return false; x = truncl(x); if (std::is_floating_point<S>::value) return x >= (LD)std::numeric_limits<D>::min() && x <= (LD)std::numeric_limits<D>::max(); return true; }
template <class D, class S> static bool cv(const str &s, str &out) { S v = U<S>(s); if (!fits<D, S>(v)) return false; D d = (D)v; out = B(d); return true; }
template <class S> static bool cv1(const str &d, const str &s, str &o) { if (d == "i4") return cv<int32_t, S>(s, o); if (d == "i8") return cv<int64_t, S>(s, o); if (d == "u4") return cv<uint32_t, S>(s, o); if (d == "u8") return cv<uint64_t, S>(s, o); if (d == "f4") return cv<float, S>(s, o); return cv<double, S>(s, o); }
static bool num(const str &t) { for (auto &x : NUM) if (x == t) return true; return false; }
// 1 supported, 0 not
static int supported(const str &d, const str &s) { if (d == s) return 1; if (num(d) && (num(s) || s == "b1")) return 1; if ((d == "c8" && s == "c16") || (d == "c16" && s == "c8")) return 1; return 0; }
static bool conv(const str &d, const str &s, const str &v, str &o) {
    if (d == s) { o = v; return true; }
    if (s == "b1") { int x = (unsigned char)v[0]; str t = B((int32_t)x); return cv1<int32_t>(d, t, o); }
    if (s == "c8") { float a[2]; memcpy(a, v.data(), 8); double b[2] = {a[0], a[1]}; o.assign((char *)b, 16); return true; }
    if (s == "c16") { double a[2]; memcpy(a, v.data(), 16); float b[2] = {(float)a[0], (float)a[1]}; o.assign((char *)b, 8); return true; }
    if (s == "i4") return cv1<int32_t>(d, v, o); if (s == "i8") return cv1<int64_t>(d, v, o); if (s == "u4") return cv1<uint32_t>(d, v, o); if (s == "u8") return cv1<uint64_t>(d, v, o); if (s == "f4") return cv1<float>(d, v, o); return cv1<double>(d, v, o);
}
static vals values(const str &t) {
    vals r; auto I = [&](auto z) { typedef decltype(z) T; for (LD x : {0.0L, 1.0L, 2.0L, 255.0L, 256.0L, 65536.0L, 16777217.0L, 2147483647.0L}) r.push_back(B((T)x)); r.push_back(B(std::numeric_limits<T>::max())); r.push_back(B(std::numeric_limits<T>::min())); r.push_back(B((T)(T(0x0102030405060708ull)))); r.push_back(B((T)-1)); r.push_back(B((T)(std::numeric_limits<T>::max() / 2 + 1))); r.push_back(B((T)9007199254740993ll)); r.push_back(B((T)4294967296ll)); };
    auto F = [&](auto z) { typedef decltype(z) T; for (T x : {(T)0, (T)-0.0, (T)1, (T)-1, (T)1.5, (T)-2.75, (T)123456.789, (T)0.1, (T)1e9, (T)-1e9, (T)4e9, (T)1e18, (T)1e19, (T)1e-30, (T)3e38, std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::epsilon()}) r.push_back(B(x)); if (sizeof(T) == 8) r.push_back(B((T)1e300)), r.push_back(B((T)16777217.0)); };
    if (t == "i4") I(int32_t(0)); else if (t == "i8") I(int64_t(0)); else if (t == "u4") I(uint32_t(0)); else if (t == "u8") I(uint64_t(0)); else if (t == "f4") F(float(0)); else if (t == "f8") F(double(0));
    else if (t == "b1") for (int x : {0, 1, 2, 127}) r.push_back(str(1, x));
    else if (t == "c8") for (int k = 0; k < 6; k++) { float z[2] = {k * 1.25f - 2, k == 3 ? -INFINITY : k * -3.5f}; r.push_back(str((char *)z, 8)); }
    else if (t == "c16") for (int k = 0; k < 6; k++) { double z[2] = {k * 1.1 - 2, k == 3 ? INFINITY : k * -3.7}; r.push_back(str((char *)z, 16)); }
    else { int w = atoi(t.c_str() + 1); for (int k = 0; k < 5; k++) { str s; for (int i = 0; i < w; i++) s += pat(k, i, 9); r.push_back(s); } r.push_back(str(w, 0)); r.push_back(str(w, 0xff)); }
    return r;
}
static bool same(const str &t, const str &a, const str &b) { if (a == b) return true; if (t == "f4") return std::isnan(U<float>(a)) && std::isnan(U<float>(b)); if (t == "f8") return std::isnan(U<double>(a)) && std::isnan(U<double>(b)); return false; }
static const char *full(const str &t, const char *pre, char *b) { sprintf(b, "%s%s", pre, t.c_str()); return b; }
static void pairs(const str &A, const char *pa, const str &D, const char *pd, int mode) {
    // array of type A; block of type D
    char an[16], dn[16]; full(A, pa, an); full(D, pd, dn); int aw = atoi(A.c_str() + 1), dw = atoi(D.c_str() + 1); str ds = sprintfs("array %s block %s", an, dn); mc_note("%s mode %d", ds.c_str(), mode);
    vals in, want; bool sup = supported(D, A);
    for (auto &v : values(A)) { str o; if (!sup) { in.push_back(v); continue; } if (conv(D, A, v, o)) { in.push_back(v); want.push_back(o); } }
    if (mode == 2) { vals i2, w2; for (int k = 0; k < 9000; k++) { i2.push_back(in[k % in.size()]); if (sup) w2.push_back(want[k % in.size()]); } in = i2; want = w2; }
    if (mode == 1) { while (in.size() % 3) { in.push_back(in[0]); if (sup) want.push_back(want[0]); } }
    size_t n = in.size(); int nm = mode == 1 ? 3 : 1; size_t nr = n / nm; sizes_t fs = mode == 1 ? sizes_t{1, 0, nr} : sizes_t{nr + 1};
    BigBlock bb; OK(big_file_create(&bf, "bf")); big_file_set_buffer_size(4096); OK(big_file_create_block(&bf, &bb, "b", dn, nm, fs.size(), fs.data()));
    big_file_set_buffer_size(mode == 0 ? 4096 : mode == 1 ? dw * nm : 65536);
    str old; for (size_t r = 0; r < nr + 1; r++) old += rowpat(1, r, dw * nm); OK(wr_at(&bb, 0, old, dn, nm)); OK(big_block_flush(&bb));
    auto before = tree("bf");
    int st = mode == 1 ? 2 : 1;     // stride in elements
    str src; for (auto &v : in) { src += rev(A, v, pa[0]); if (st == 2) src += str(aw, 0x5A); }
    Buf a(src); BigArray ar; size_t dims[2] = {nr, (size_t)nm}; ptrdiff_t str_[2] = {st * nm * aw, st * aw}; OK(big_array_init(&ar, a.p, an, 2, dims, str_));
    BigBlockPtr p; memset(&p, 0, sizeof p); OK(big_block_seek(&bb, &p, 1)); int rt = big_block_write(&bb, &p, &ar); mc_transitions();
    MC_CHECK(a.s() == src, "%s: writing changed the array", ds.c_str());
    str raw; auto rawread = [&]() { raw.clear(); for (size_t f = 0; f < fs.size(); f++) raw += slurp("bf/b/" + fname(f)); };
    rawread();
    if (!sup) { MC_CHECK(rt != 0, "%s: an unsupported conversion was not refused", ds.c_str()); MC_CHECK(big_file_get_error_message() && *big_file_get_error_message(), "%s: no message", ds.c_str()); MC_CHECK(raw == old, "%s: a refused write changed the rows", ds.c_str()); }
    else {
        MC_CHECK(rt == 0, "%s: write failed: %s", ds.c_str(), errmsg());
        MC_CHECK(raw.substr(0, dw * nm) == old.substr(0, dw * nm), "%s: first row changed", ds.c_str());
        for (size_t k = 0; k < n; k++) { str g = rev(D, raw.substr((nm + k) * dw, dw), pd[0]); if (!same(D, g, want[k])) mc_fail("%s: %s (native bytes) stored as %s, expected %s", ds.c_str(), hex(in[k]).c_str(), hex(g).c_str(), hex(want[k]).c_str()); }
    }
    mc_state(mc_hash_str(raw)); OK(big_block_close(&bb));
    // the other way: block of type D is read as A
    OK(big_file_open_block(&bf, &bb, "b")); sup = supported(A, D); vals bi, bw; for (auto &v : values(D)) { str o; if (!sup) bi.push_back(v); else if (conv(A, D, v, o)) { bi.push_back(v); bw.push_back(o); } }
    bi.resize(std::min(bi.size(), nr * nm / nm * nm)); while (bi.size() % nm) bi.pop_back();
    n = bi.size(); nr = n / nm; str d; for (auto &v : bi) d += rev(D, v, pd[0]); OK(wr_at(&bb, 1, d, dn, nm));
    str g0(n * st * aw, 0x77); Buf g(g0); dims[0] = nr; OK(big_array_init(&ar, g.p, an, 2, dims, str_)); OK(big_block_seek(&bb, &p, 1)); rt = big_block_read(&bb, &p, &ar); mc_transitions();
    BigArray sa; memset(&sa, 0, sizeof sa); int rt2 = big_block_read_simple(&bb, 1, nr, &sa, an);
    if (n && !sup) { MC_CHECK(rt != 0 && rt2 != 0, "%s: unsupported conversion on reading was not refused", ds.c_str()); }
    else if (n) {
        MC_CHECK(rt == 0 && rt2 == 0, "%s: read failed: %s", ds.c_str(), errmsg());
        str got = g.s();
        for (size_t k = 0; k < n; k++) { str x = rev(A, got.substr(k * st * aw, aw), pa[0]); if (!same(A, x, bw[k])) mc_fail("%s: stored %s read as %s, expected %s", ds.c_str(), hex(bi[k]).c_str(), hex(x).c_str(), hex(bw[k]).c_str());
            if (st == 2) MC_CHECK(got.substr((k * st + 1) * aw, aw) == str(aw, 0x77), "%s: read wrote between the elements", ds.c_str());
            str y = rev(A, str((char *)sa.data + k * aw, aw), pa[0]); MC_CHECK(same(A, y, bw[k]), "%s: read_simple gave %s, expected %s", ds.c_str(), hex(y).c_str(), hex(bw[k]).c_str()); }
    }
    if (rt2 == 0) free(sa.data);
    // attributes
    vals ai = values(A); str av; for (auto &v : ai) av += rev(A, v, pa[0]);
    { Buf x(av); OK(big_block_set_attr(&bb, "a", x.p, an, ai.size())); MC_CHECK(x.s() == av, "%s: set_attr changed its input", ds.c_str()); }
    for (int again = 0; again < 2; again++) {
        Buf o(ai.size() * dw, 0x33); rt = big_block_get_attr(&bb, "a", o.p, dn, ai.size());
        if (!supported(D, A)) { MC_CHECK(rt != 0, "%s: reading an attribute with unsupported conversion succeeded", ds.c_str()); }
        else { MC_CHECK(rt == 0, "%s: get_attr failed: %s", ds.c_str(), errmsg()); for (size_t k = 0; k < ai.size(); k++) { str w; if (conv(D, A, ai[k], w)) { str y = rev(D, o.s().substr(k * dw, dw), pd[0]); MC_CHECK(same(D, y, w), "%s: attribute %s read as %s, expected %s", ds.c_str(), hex(ai[k]).c_str(), hex(y).c_str(), hex(w).c_str()); } } }
        Buf q(av.size()); OK(big_block_get_attr(&bb, "a", q.p, an, ai.size())); MC_CHECK(q.s() == av, "%s: stored attribute was altered", ds.c_str());
        BigAttr *at = big_block_lookup_attr(&bb, "a"); MC_CHECK(at && at->nmemb == (int)ai.size(), "attribute lost");
        if (!again) { OK(big_block_close(&bb)); OK(big_file_open_block(&bf, &bb, "b")); }
    }
    OK(big_block_close(&bb)); OK(big_file_close(&bf));
}
static void run() {
    const str &a = mc_pick(ALL); int pa = mc_choose(4); const str &d = mc_pick(ALL); mc_split(); int pd = mc_choose(4); int mode = mc_choose(3);
    if (mode == 2 && !mc_thorough() && pa > 1 && pd > 1) return;
    pairs(a, PRE[pa], d, PRE[pd], mode);
}
int main(int c, char **v) { mc_track_module("libbf"); McOpts o; o.property = "C04"; o.run = run; return mc_main(c, v, o); }
