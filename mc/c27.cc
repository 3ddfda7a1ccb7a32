// C27: what was opened is released: memory, open files, temporary files, also after failures.
#include "bf.h"
#include "mcfs.h"
#include "memtrack.h"
extern "C" { void *_big_block_pack(BigBlock *, size_t *); void _big_block_unpack(BigBlock *, void *); }
static BigFile bf; static bool hasX, hasN; static BigBlock X, N; static int faulty;
static const char *DT = "<i4";
template <class F> static bool lib(const char *what, F f) { mc_note("%s", what); int rt; { McfsScope s(faulty); rt = f(); } mcfs_heal(); mc_transitions(); if (rt) { mc_note("  -> fails: %s", errmsg()); mc_count(1); } return rt == 0; }
#define DO(call) lib(#call, [&]() { return call; })
static str rows(size_t n, int rs = 4) { str s; for (size_t i = 0; i < n; i++) s += rowpat(3, i, rs); return s; }
static int access(BigBlock *b, bool w, ptrdiff_t off, size_t n, const char *dt, int gap) {
    BigBlockPtr q; memset(&q, 0, sizeof q); int rt = big_block_seek(b, &q, off); if (rt) return rt;
    std::vector<char> m(64 + n * 16 * (1 + gap)); BigArray a; size_t d[2] = {n, (size_t)b->nmemb}; ptrdiff_t wd = width(dt), st[2] = {wd * b->nmemb * (1 + gap), wd}; big_array_init(&a, m.data(), dt, 2, d, st); return w ? big_block_write(b, &q, &a) : big_block_read(b, &q, &a); }
static void simple(BigBlock *b) { BigArray a; memset(&a, 0, sizeof a); if (DO(big_block_read_simple(b, 0, 100, &a, "<f8"))) mem_free(a.data); }
static void list() { char **l = NULL; int n = 0; if (DO(big_file_list(&bf, &l, &n))) { for (int i = 0; i < n; i++) mem_free(l[i]); mem_free(l); } }
static void records(int kind) {
    BigRecordType r; memset(&r, 0, sizeof r); big_record_type_add(&r, "r/one", "<i4", 1); big_record_type_add(&r, "r/two", "<u2", 2); if (kind == 4) big_record_type_set(&r, 1, "r/other", "<f8", 3), big_record_type_set(&r, 0, "q", "<u2", 1); big_record_type_complete(&r); size_t f[2] = {1, 2}; char buf[200] = {0};
    switch (kind) { case 0: DO(big_file_create_records(&bf, &r, "w+", 2, f)); break; case 1: DO(big_file_create_records(&bf, &r, "a+", 1, f)); break; case 2: DO(big_file_write_records(&bf, &r, 0, 3, buf)); break; case 3: DO(big_file_read_records(&bf, &r, 0, 3, buf)); break; case 4: DO(big_file_read_records(&bf, &r, 0, 1, buf)); DO(big_file_create_records(&bf, &r, "x", 1, f)); break; }
    big_record_type_clear(&r);
}
static void malformed() {
    static const char *H[] = {"", "DTYPE: <i4\nNMEMB: 1\nNFILE: 2\n000000: 1 : 0 : 0\n", "DTYPE: <i4\nNMEMB: 1\nNFILE: -2\n", "DTYPE: <q99\nNMEMB: 1\nNFILE: 0\n", "DTYPE: <i4\nNMEMB: 1\nNFILE: 1\n000000: 18446744073709551615 : 0 : 0\n", "DTYPE: <i4\nNMEMB: 1\nNFILE: 400000000000\n", "DTYPE: <i4\nNMEMB: 1\nNFILE: 1\n000000: 1 : x : 0\n"};
    static const str A[] = {"", "x S1 1\n", "x S1 1 41 #HUMANE [ A ]\ny q9 1 41 #HUMANE [ A ]\n", "x S1 1 41 #HUMANE [ A ]\nx S1 1 4\n", str("\1\0\0\0\1\0\0\0i4\0\0\0\0\0\0n\1\2\3\4", 21), str("\1\0\0\0\1\0\0\0i4\0\0\0\0\0\0n\1\2", 19), str("\1\0\0\0\1\0", 6), str("\377\377\377\177\1\0\0\0i4\0\0\0\0\0\0n\1\2\3\4", 21)};
    int k = mc_choose(15, "malformed"); mkdirs("bf/bad"); put("bf/bad/header", "DTYPE: <i4\nNMEMB: 1\nNFILE: 0\n");
    if (k < 7) put("bf/bad/header", H[k]); else if (k < 11) put("bf/bad/attr-v2", A[k - 7]); else put("bf/bad/attrs", A[k - 7]);
    BigBlock b; if (DO(big_file_open_block(&bf, &b, "bad"))) { DO(big_block_set_attr(&b, "new", "v", "S1", 1)); DO(big_block_close(&b)); }
}
static void refused() {
    BigBlock b; size_t f[2] = {1, 1}; BigFile g; int v[64] = {1, 2};
    switch (mc_choose(12, "refused")) {
    case 0: if (DO(big_file_open_block(&bf, &b, "none"))) DO(big_block_close(&b)); if (DO(big_file_open_block(&bf, &b, "g/none/x"))) DO(big_block_close(&b)); return;
    case 1: if (DO(big_file_create_block(&bf, &b, "g/x/header/y", DT, 1, 2, f))) DO(big_block_close(&b)); return;
    case 2: if (DO(big_file_create_block(&bf, &b, "a b", DT, 1, 2, f))) DO(big_block_close(&b)); if (DO(big_file_create_block(&bf, &b, "n", "<q9", 1, 2, f))) DO(big_block_close(&b)); return;
    case 3: if (DO(big_file_create_block(&bf, &b, "n", "notatype", 1, 2, f))) DO(big_block_close(&b)); if (DO(big_file_create_block(&bf, &b, "n", DT, -1, 2, f))) DO(big_block_close(&b)); if (DO(big_file_create_block(&bf, &b, "n", DT, 1, -2, f))) DO(big_block_close(&b)); return;
    case 4: { size_t h[2] = {(size_t)-1, 3}; if (DO(big_file_create_block(&bf, &b, "n", DT, 1, 2, h))) DO(big_block_close(&b)); return; }
    case 5: if (DO(big_file_open(&g, "nothing"))) DO(big_file_close(&g)); if (DO(big_file_open(&g, "bf/g/x/header"))) DO(big_file_close(&g)); if (DO(big_file_create(&g, "bf/g/x/header/y"))) DO(big_file_close(&g)); return;
    }
    if (!hasX) { if (!lib("open g/x", []() { return big_file_open_block(&bf, &X, "g/x"); })) return; hasX = true; }
    switch (mc_choose(6, "refused")) {
    case 0: DO(big_block_set_attr(&X, "new", v, "q9", 1)); DO(big_block_set_attr(&X, "a", v, "toolongtype", 1)); return;
    case 1: DO(big_block_set_attr(&X, "a name", v, "i4", 1)); DO(big_block_set_attr(&X, "", v, "i4", 1)); DO(big_block_set_attr(&X, "a", v, "i4", -1)); return;
    case 2: DO(big_block_get_attr(&X, "a", v, "i4", 1)); DO(big_block_get_attr(&X, "none", v, "i4", 1)); DO(big_block_remove_attr(&X, "none")); return;
    case 3: DO(access(&X, true, 2, 2, DT, 0)); DO(access(&X, false, 2, 2, DT, 0)); DO(access(&X, false, 9, 1, DT, 0)); return;
    case 4: DO(access(&X, true, 0, 3, "<c8", 0)); DO(access(&X, false, 0, 3, "S4", 0)); return;
    case 5: { size_t h[2] = {(size_t)-1, 3}; DO(big_block_grow(&X, -1, f)); DO(big_block_grow(&X, 2, h)); return; }
    }
}
static void step(int op) {
    size_t f3[3] = {1, 0, 2}, f2[2] = {1, 1};
    if (!hasX && (op == 0 || (op >= 2 && op <= 8))) { if (!lib("open g/x", []() { return big_file_open_block(&bf, &X, "g/x"); })) return; hasX = true; if (op == 0) return; }
    switch (op) {
    case 0: hasX = false; DO(big_block_close(&X)); return;
    case 1: if (hasX) { hasX = false; DO(big_block_close(&X)); } hasX = lib("create g/x again", [&]() { return big_file_create_block(&bf, &X, "g/x", "<u2", 2, 3, f3); }); return;
    case 2: DO(access(&X, true, 0, X.size, "<i4", 0)); return;
    case 3: DO(access(&X, false, 0, X.size, "<f8", 1)); simple(&X); return;
    case 4: { str v(300, 'v'); DO(big_block_set_attr(&X, "b", v.data(), "S1", 300)); DO(big_block_set_attr(&X, "a", v.data(), "<i4", 5)); return; }
    case 5: DO(big_block_remove_attr(&X, "a")); big_block_lookup_attr(&X, "k"); size_t c; big_block_list_attrs(&X, &c); return;
    case 6: DO(big_block_flush(&X)); return;
    case 7: DO(big_block_grow(&X, 2, f2)); return;
    case 8: { size_t n = 0; void *p = _big_block_pack(&X, &n); BigBlock c; memset(&c, 0, sizeof c); _big_block_unpack(&c, p); mem_free(p); DO(big_block_close(&c)); return; }
    case 9: list(); return;
    case 10: if (hasN) { hasN = false; DO(big_block_close(&N)); } else hasN = lib("create n/new", [&]() { return big_file_create_block(&bf, &N, "n/new", "<f8", 1, 2, f2); }); if (hasN) DO(access(&N, true, 0, 2, "<f4", 1)); return;
    case 11: records(exists("bf/r/one") ? 1 + mc_choose(4, "records") : 0); return;
    case 12: { BigFile g; if (DO(big_file_open(&g, "bf"))) DO(big_file_close(&g)); if (DO(big_file_create(&g, "bf/sub/file"))) DO(big_file_close(&g)); return; }
    case 13: refused(); return;
    case 14: malformed(); return;
    case 15: big_file_set_error_message((char *)"one"); big_file_set_error_message((char *)str(3000, 'm').c_str()); return;
    }
}
static const int NOP = 16;
static void setup() {
    mc_wipe("bf"); mcfs_reset(); mem_reset(); hasX = hasN = false; faulty = MCFS_FAULT; big_file_set_error_message(NULL); big_file_set_buffer_size(8); BigBlock b; size_t f[3] = {2, 0, 1};
    OK(big_file_create(&bf, "bf")); OK(big_file_create_block(&bf, &b, "g/x", DT, 1, 3, f)); OK(wr_at(&b, 0, rows(3), DT, 1)); OK(big_block_set_attr(&b, "a", "old", "S1", 3)); OK(big_block_set_attr(&b, "k", "keep", "S1", 4)); OK(big_block_close(&b)); OK(big_file_close(&bf));
    big_file_set_error_message(NULL); str w; int n = mem_live(&w); MC_CHECK(n == 0, "%d allocations are left after creating a block and closing everything: %s", n, w.c_str()); OK(big_file_open(&bf, "bf"));
}
static void finish() {
    if (hasX) { hasX = false; DO(big_block_close(&X)); } if (hasN) { hasN = false; DO(big_block_close(&N)); } DO(big_file_close(&bf)); mcfs_off(); big_file_set_error_message(NULL);
    str w; int n = mcfs_leaked(&w); MC_CHECK(n == 0, "%d files are left open: %s", n, w.c_str()); n = mem_live(&w); MC_CHECK(n == 0, "%d allocations of the library are left when everything is closed: %s", n, w.c_str());
    auto t = tree("bf"); if (!mcfs_faults()) for (auto &x : t) MC_CHECK(x.first.find(".tmp") == str::npos && x.first.find("~") == str::npos, "file %s is left", x.first.c_str());
    mc_state(tree_hash(t));
}
static void hist() {          // quick: the fault hits the middle one of three, or any of two
    bool T = mc_thorough(), third = mc_choose(2); int a = mc_choose(T ? NOP : 13), b = mc_choose(T || !third ? NOP : 13); mc_split(); setup();
    if (third && !T) faulty = MCFS_LOG; step(a); faulty = MCFS_FAULT; step(b); if (third) { if (!T) faulty = MCFS_LOG; step(T ? mc_choose(NOP) : mc_pick(std::vector<int>{0, 2, 3, 6, 9})); } finish(); }
static void longer() {
    static const std::vector<std::vector<int>> hs = {{0, 2, 4, 6, 7, 2, 0, 0, 3, 0, 9}, {11, 11, 9, 11, 3}, {4, 5, 4, 6, 8, 0, 4, 0, 3}, {10, 10, 10, 9, 12, 1, 2, 3, 7, 6}, {1, 1, 1, 4, 4, 8, 8, 3}, {14, 13, 9}};
    const auto &h = hs[mc_choose((int)hs.size())]; mc_split(); setup(); for (int op : h) step(op); finish();
}
static void big() {           // more files, and attributes beyond one buffer of stdio
    int k = mc_choose(3); mc_split(); setup(); faulty = MCFS_LOG; sizes_t fs(6, 1); BigBlock b; if (!lib("create big", [&]() { return big_file_create_block(&bf, &b, "big", DT, 1, 6, fs.data()); })) return;
    for (int i = 0; i < 24; i++) { str v(400 + i, 'x'); DO(big_block_set_attr(&b, sprintfs("attribute%d", i % 16).c_str(), v.data(), "S1", v.size())); } faulty = MCFS_FAULT; if (k == 0) DO(big_block_grow(&b, 6, fs.data())); if (DO(big_block_close(&b)) && k && DO(big_file_open_block(&bf, &b, "big"))) { if (k == 2) for (int i = 0; i < 16; i += 3) DO(big_block_remove_attr(&b, sprintfs("attribute%d", i).c_str())); DO(big_block_close(&b)); } finish();
}
static void run() { switch (mc_choose(3)) { case 0: return hist(); case 1: return longer(); default: return big(); } }
int main(int c, char **v) { mc_track_module("libbf"); McOpts o; o.property = "C27"; o.run = run; o.deviations = 1; o.worker_init = mcfs_install; o.counters[1] = "calls_that_failed"; return mc_main(c, v, o); }
