// C11: threads of one process on separate handles, in every interleaving of their file system calls and of their accesses to memory they share.
#include "proc.h"
#include "threads.h"
extern "C" void rt_free(void *);
static Lib &l = L[0]; static const int RS = 4; static std::vector<str> msgs[8]; static bool solo;
#define IN(x) ({ thr_in(true); auto r__ = (x); thr_in(false); r__; })
#define GOOD(x) do { if (IN(l.x)) mc_fail("%d: " #x " fails when other threads work: %s", sched_self(), message().c_str()); } while (0)
#define BAD(x) do { if (!IN(l.x)) mc_fail("%d: " #x " claims success", sched_self()); str m__ = message(); if (solo) msgs[sched_self()].push_back(m__); else checkmsg(m__); } while (0)
// reads the message the way a thread does: one byte after the other, while others go on
static str message() { const char *p = IN(l.big_file_get_error_message()); if (!p) return "(none)"; str s; for (;; p++) { thr_touch(p, 1, false); char c = *(volatile const char *)p; if (!c) return s; s += c; if (s.size() > 4000) mc_fail("%d: an error message without end", sched_self()); } }
static void checkmsg(const str &m) { for (auto &v : msgs) for (auto &x : v) if (x == m) return; mc_fail("%d: the error message is '%s', which is none of those of the failures", sched_self(), show(m).c_str()); }
static str rows(int stamp, size_t r0, size_t n, int rs = RS) { str s; for (size_t i = 0; i < n; i++) s += rowpat(stamp, r0 + i, rs); return s; }
static void arr(BigArray &a, void *p, const char *dt, size_t n, ptrdiff_t stride = 0, size_t m = 1) { size_t d[2] = {n, m}; ptrdiff_t st[2] = {stride, (ptrdiff_t)width(dt)}; l.big_array_init(&a, p, dt, 2, d, stride ? st : NULL); }
static void put_rows(BigBlock *b, size_t at, const str &v, const char *dt = "<i4", size_t m = 1) { BigBlockPtr p; GOOD(big_block_seek(b, &p, at)); Buf buf(v); BigArray a; arr(a, buf.p, dt, v.size() / width(dt) / m, 0, m); GOOD(big_block_write(b, &p, &a)); }
static str get_rows(BigBlock *b, size_t at, size_t n, const char *dt = "<i4", size_t m = 1) { BigBlockPtr p; GOOD(big_block_seek(b, &p, at)); Buf buf(n * m * width(dt)); BigArray a; arr(a, buf.p, dt, n, 0, m); GOOD(big_block_read(b, &p, &a)); return buf.s(); }
static str own(const char *k, int t) { return str(k) + std::to_string(t); }
static str listing(BigFile *f) { char **bl = 0; int nb = 0; GOOD(big_file_list(f, &bl, &nb)); str s; for (int i = 0; i < nb; i++) { s += str(bl[i]) + ","; rt_free(bl[i]); } rt_free(bl); return s; }
static str attrs(BigBlock *b) { str s; size_t n; BigAttr *a = IN(l.big_block_list_attrs(b, &n)); for (size_t i = 0; i < n; i++) s += str(a[i].name) + "=" + a[i].dtype + hex(str(a[i].data, a[i].nmemb * width(a[i].dtype))) + ","; return s; }
static str attr_one(BigBlock *b, const char *n) { BigAttr *a = IN(l.big_block_lookup_attr(b, n)); return a ? str(a->data, a->nmemb * width(a->dtype)) : "-"; }
#define CL GOOD(big_block_close(&b)); GOOD(big_file_close(&f))
// ---- what a thread does; returns everything it got
static str p_create(int t) { BigFile f; BigBlock b; size_t fs[2] = {2, 1}; str d = own("own", t), r; GOOD(big_file_create(&f, d.c_str())); GOOD(big_file_create_block(&f, &b, "x/y", "<i4", 1, 2, fs)); put_rows(&b, 0, rows(t + 1, 0, 3)); GOOD(big_block_set_attr(&b, "who", d.c_str(), "S1", d.size())); CL;
    GOOD(big_file_open(&f, d.c_str())); GOOD(big_file_open_block(&f, &b, "x/y")); r = hex(get_rows(&b, 0, 3)) + attrs(&b) + listing(&f); CL; return r; }
static str p_rows(int t) { BigFile f; BigBlock b; str r; GOOD(big_file_open(&f, "f")); GOOD(big_file_open_block(&f, &b, "b")); put_rows(&b, 2 * t, rows(t + 1, 2 * t, 2)); r = hex(get_rows(&b, 2 * t, 2)); CL; return r; }
static str p_miss(int t) { BigFile f; BigBlock b; str r; GOOD(big_file_open(&f, "f")); BAD(big_file_open_block(&f, &b, own("nothing", t).c_str())); GOOD(big_file_open_block(&f, &b, "b")); r = hex(get_rows(&b, 8, 2)) + attr_one(&b, "a"); CL; return r; }
static str p_fail(int t) { BigFile f; BigBlock b; str n = own("none-such", t); BAD(big_file_open(&f, n.c_str())); GOOD(big_file_open(&f, "f")); GOOD(big_file_open_block(&f, &b, "b")); char x[64]; memset(x, 'x', 64); BAD(big_block_get_attr(&b, n.c_str(), x, "i8", 1)); BAD(big_block_remove_attr(&b, n.c_str())); CL; return str(x, 64); }
static str p_beyond(int t) { BigFile f; BigBlock b; str r; GOOD(big_file_open(&f, "f")); GOOD(big_file_open_block(&f, &b, "b")); BigBlockPtr p; GOOD(big_block_seek(&b, &p, 9)); Buf buf(8); BigArray a; arr(a, buf.p, "<i4", 2 + t); BAD(big_block_seek(&b, &p, 100 + t)); BAD(big_block_set_attr(&b, "", "x", "S1", 1)); r = hex(get_rows(&b, 9, 1)); CL; return r; }
static str p_list(int t) { BigFile f; GOOD(big_file_open(&f, "h")); str r = listing(&f); GOOD(big_file_close(&f)); return r; }
static str p_conv(int t) { BigFile f; BigBlock b; str r; GOOD(big_file_open(&f, "g")); GOOD(big_file_open_block(&f, &b, "c")); for (int k = 0; k < 2; k++) { BigBlockPtr p; GOOD(big_block_seek(&b, &p, 0)); char m[3 * 24]; memset(m, 1, sizeof m); BigArray a; arr(a, m, t % 2 ? ">f8" : "<f8", 3, 24, 2); GOOD(big_block_read(&b, &p, &a)); r += hex(str(m, sizeof m)); } { BigArray a; GOOD(big_block_read_simple(&b, 1, 2, &a, "u8")); r += hex(str((char *)a.data, 32)); rt_free(a.data); } CL;
    size_t fs[1] = {3}; GOOD(big_file_open(&f, "g")); GOOD(big_file_create_block(&f, &b, own("conv", t).c_str(), ">i4", 2, 1, fs)); BigBlockPtr p; GOOD(big_block_seek(&b, &p, 0)); double v[6] = {1. + t, 2, 3, 4, 5, 6. + t}; BigArray a; arr(a, v, "<f8", 3, 0, 2); GOOD(big_block_write(&b, &p, &a)); CL; return r; }
static str p_rec(int t) { BigFile f; BigRecordType R; memset(&R, 0, sizeof R); struct Q { int a; double b[2]; char c; } q[3], z[3]; memset(q, 7 + t, sizeof q); memset(z, 1, sizeof z); str d = own("rec", t); thr_in(true); l.big_record_type_add(&R, "a", "i4", 1); l.big_record_type_add(&R, "b", "f8", 2); l.big_record_type_add(&R, "c", "S1", 1); l.big_record_type_complete(&R); thr_in(false); size_t rs = R.itemsize; str in = rows(t + 3, 0, 3, rs);
    GOOD(big_file_create(&f, d.c_str())); size_t fs[2] = {1, 2}; GOOD(big_file_create_records(&f, &R, "w+", 2, fs)); Buf x(in), y(3 * rs); GOOD(big_file_write_records(&f, &R, 0, 3, x.p)); GOOD(big_file_read_records(&f, &R, 0, 3, y.p)); thr_in(true); l.big_record_type_clear(&R); thr_in(false); GOOD(big_file_close(&f)); return y.s() == in ? "same" : hex(y.s()); }
static str p_attr(int t) { BigFile f; BigBlock b; str n = own("att", t), r; GOOD(big_file_open(&f, "g")); GOOD(big_file_open_block(&f, &b, n.c_str())); char v[9]; memset(v, 'A' + t, 9); GOOD(big_block_set_attr(&b, "long", v, "S1", 9)); GOOD(big_block_set_attr(&b, "old", v, "<u2", 3)); GOOD(big_block_remove_attr(&b, "gone")); int i = 5 + t; GOOD(big_block_set_attr(&b, "num", &i, "i4", 1)); double d = 0; GOOD(big_block_get_attr(&b, "num", &d, "f8", 1)); r = attrs(&b) + std::to_string(d); GOOD(big_block_flush(&b)); CL; GOOD(big_file_open(&f, "g")); GOOD(big_file_open_block(&f, &b, n.c_str())); r += attrs(&b); CL; return r; }
static str p_group(int t) { BigFile f; BigBlock b; size_t fs[1] = {1}; GOOD(big_file_create(&f, "new")); GOOD(big_file_create_block(&f, &b, own("deep/er/z", t).c_str(), "i4", 1, 1, fs)); put_rows(&b, 0, rows(t + 1, 0, 1), "i4"); CL; return ""; }
static str p_grow(int t) { BigFile f; BigBlock b; str n = own("att", t); GOOD(big_file_open(&f, "g")); GOOD(big_file_open_block(&f, &b, n.c_str())); size_t fs[2] = {1, 2}; GOOD(big_block_grow(&b, 2, fs)); str r = std::to_string(b.size) + " " + std::to_string(b.Nfile); put_rows(&b, 1, rows(t + 1, 1, 4)); r += hex(get_rows(&b, 1, 4)); CL; return r; }
static str p_settle(int t) { str m = own("set by thread ", t), r; BigFile f; BigBlock b; IN((l.big_file_set_error_message((char *)m.c_str()), 0)); str g = message(); if (solo) msgs[t].push_back(m); else checkmsg(g); GOOD(big_file_open(&f, "g")); size_t fs[1] = {1}; BAD(big_file_create_block(&f, &b, own("bad", t).c_str(), "Q7", 1, 1, fs)); BAD(big_file_create(&f, own("g/c/header/", t).c_str())); return ""; }
static str p_trunc(int t) { BigFile f; BigBlock b; GOOD(big_file_open(&f, "g")); BAD(big_file_open_block(&f, &b, "torn")); GOOD(big_file_open_block(&f, &b, "short")); BigBlockPtr p; GOOD(big_block_seek(&b, &p, 0)); Buf buf(16); BigArray a; arr(a, buf.p, "<i4", 4); BAD(big_block_read(&b, &p, &a)); CL; return ""; }
static str (*const PR[])(int) = {p_create, p_rows, p_miss, p_fail, p_beyond, p_list, p_conv, p_rec, p_attr, p_group, p_grow, p_settle, p_trunc};
static const char *PN[] = {"creates a file", "writes rows of the shared block", "opens a missing block", "fails to open a file and in attributes", "seeks beyond the end", "lists", "reads and writes with conversion", "records", "changes attributes", "creates the shared file", "grows", "fails to create", "opens damaged blocks"};
static const int NP = sizeof PR / sizeof *PR;
static void mk(const char *f_, const char *blk, size_t n, int m, size_t written, const char *dt = "<i4") { BigFile f; BigBlock b; size_t fs[2] = {n / 2, n - n / 2}; LOK(l, big_file_create(&f, f_)); LOK(l, big_file_create_block(&f, &b, blk, dt, m, 2, fs)); if (written) { BigBlockPtr p; LOK(l, big_block_seek(&b, &p, 0)); Buf buf(rows(9, 0, written, 4 * m)); BigArray a; arr(a, buf.p, dt, written, 0, m); LOK(l, big_block_write(&b, &p, &a)); } LOK(l, big_block_set_attr(&b, "a", "old", "S1", 3)); LOK(l, big_block_set_attr(&b, "old", "xy", "S1", 2)); LOK(l, big_block_set_attr(&b, "gone", "z", "S1", 1)); LOK(l, big_block_close(&b)); LOK(l, big_file_close(&f)); }
static void setup() { mc_wipe("."); l.big_file_set_buffer_size(17); mk("f", "b", 10, 1, 10); mk("g", "c", 3, 2, 3); for (int i = 0; i < 4; i++) mk("g", own("att", i).c_str(), 2, 1, 2); mk("h", "a/x", 3, 1, 3); mk("h", "b", 2, 1, 2); mk("h", "a/y/z", 2, 1, 0); mk("g", "torn", 2, 1, 2); put("g/torn/header", "DTYPE: <i4\nNM"); mk("g", "short", 4, 1, 1); l.big_file_set_error_message(NULL); }
static void run() {
    bool few = !mc_choose(2, "all schedules"); int n = 2 + mc_choose(mc_thorough() ? 3 : 2, "threads"), p[4]; bool heavy = false; for (int i = 0; i < n; i++) p[i] = i == 0 ? mc_choose(NP, "program") : p[i - 1] + mc_choose(NP - p[i - 1], "program"); mc_split();
    std::vector<str> alone(n); std::map<str, str> want, base; std::vector<std::map<str, str>> after(n); for (auto &m : msgs) m.clear();
    thr_record(true); for (int i = 0; i < n; i++) { setup(); base = tree("."); mc_note("thread %d %s", i, PN[p[i]]); solo = true; l.big_file_set_error_message(NULL); thr_reset(); sched_run(i + 1, [&](int t) { if (t == i) alone[i] = PR[p[i]](t); }); after[i] = tree("."); }
    // the trees of each alone, put together; the shared block's rows are merged by hand, and its checksums depend on who closed last
    want = base; for (auto &a : after) { for (auto &x : a) if (!base.count(x.first) || base[x.first] != x.second) want[x.first] = x.second; }
    auto merge = [&](const str &k) { str s = base[k]; for (auto &a : after) for (size_t j = 0; j < s.size() && j < a[k].size(); j++) if (a[k][j] != base[k][j]) s[j] = a[k][j]; want[k] = s; }; merge("./f/b/000000"); merge("./f/b/000001");
    thr_record(false); solo = false; setup(); thr_reset(); std::vector<str> got(n); thr_bounded(few);
    sched_run(n, [&](int t) { McfsScope sc(MCFS_SCHED); got[t] = PR[p[t]](t); });
    thr_bounded(false); mc_count(1, thr_points()); mc_count(0);
    for (int i = 0; i < n; i++) MC_CHECK(got[i] == alone[i], "thread %d gets '%s', alone it gets '%s'", i, show(got[i]).c_str(), show(alone[i]).c_str());
    auto t = tree("."); for (auto &x : t) { MC_CHECK(want.count(x.first), "'%s' is left behind", x.first.c_str()); if (x.first != "./f/b/header") MC_CHECK(x.second == want[x.first], "'%s' holds '%s', not '%s'", x.first.c_str(), show(x.second).c_str(), show(want[x.first]).c_str()); } for (auto &x : want) MC_CHECK(t.count(x.first), "'%s' is missing", x.first.c_str());
    Header h; MC_CHECK(parse_header(t["./f/b/header"], h) && h.fsize == sizes_t({5, 5}) && h.dtype == "<i4", "the header is '%s'", show(t["./f/b/header"]).c_str()); mc_state(tree_hash(t, p[0] * 16 + p[1]));
}
static int same() { return 7; }
static void winit() { sched_fs(); mcfs_self = same; }
static void before() { thr_bounded(false); mcfs_reset(); thr_reset(); }
int main(int c, char **v) { procs_load(v[0], 1); thr_init((void *)l.big_file_open); McOpts o; o.property = "C11"; o.run = run; o.worker_init = winit; o.counters[0] = "interleavings"; o.counters[1] = "accesses to shared memory"; mc_before_exec = before; return mc_main(c, v, o); }
