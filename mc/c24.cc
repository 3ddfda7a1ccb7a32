// C24: the parallel copy tool, every arrival order of its messages.
#include "ranks.h"
#include <getopt.h>
static std::vector<int> status; static std::vector<bool> started; static bool aborted; static FILE *nul; static int (*tool[8])(int, char **);
extern "C" [[noreturn]] void tool_exit(int s) { status[sched_self()] = s & 255; sched_exit(); }
extern "C" int tool_getopt(int c, char *const *v, const char *o) { int r = sched_self(); if (!started[r]) { started[r] = true; optind = 0; } opterr = 0; return getopt(c, v, o); }
extern "C" FILE *tool_stderr() { return nul; }
static int s_optind[33]; static char *s_optarg[33];
static void sw(int from, int to) { if (from >= 0) { s_optind[from] = optind; s_optarg[from] = optarg; } if (to >= 0) { optind = s_optind[to]; optarg = s_optarg[to]; } }
static void ab(int s) { aborted = true; for (auto &x : status) x = s ? s & 255 : 1; }
struct T { const char *dt; int nm; };
static const std::vector<T> TS = {{"<i4", 1}, {">u2", 3}, {"|S3", 1}};
static void run() {
    int n = 1 + mc_choose(mc_thorough() ? 5 : 4, "ranks"), sync = mc_choose(2); bool faulty = mc_choose(2, "faults"); int nat = faulty ? mc_choose(9) : 0; size_t rows = mc_choose(faulty ? 4 : mc_thorough() ? 7 : 6, "rows"); mc_split();
    if (faulty && (n > 3 || (n == 3 && rows > 2)) && !mc_thorough()) return;
    const T &t = TS[(rows + n) % TS.size()]; int rs = width(t.dt) * t.nm; int chunk = mc_pick(faulty ? std::vector<int>{1} : std::vector<int>{-1, 0, 1, 2, 3}, "buffer"), nf = faulty ? -1 : mc_pick(std::vector<int>{-1, 1, 3, 4}, "files"), other = faulty ? 1 : mc_choose(2, "other file");
    if (n >= 4 && !faulty && (rows > 2 || nf > 1 || other || !sync) && !mc_thorough()) return; if (n == 3 && !mc_thorough() && rows > 3 && nf > 1) return; if (n == 5 && rows > 3) return; if (chunk == 3 && (n > 2 || nf > 1 || other)) return;
    sizes_t fs; size_t left = rows; for (size_t k = 1 + rows % 2; left; k++) { size_t x = std::min(left, k); fs.push_back(x); left -= x; if (rows > 3 && fs.size() == 1) fs.push_back(0); }
    mc_note("%d ranks, %zu rows in %s of %s x %d, %s%d rows buffered, %d files, case %d%s", n, rows, fmt_sizes(fs).c_str(), t.dt, t.nm, sync ? "synchronous, " : "", chunk, nf, nat, faulty ? ", faults" : "");
    mc_wipe("."); Lib &s = L[5]; BigFile f; BigBlock b; LOK(s, big_file_create(&f, "src")); LOK(s, big_file_create_block(&f, &b, "g/b", t.dt, t.nm, fs.size(), fs.data())); str all = rowsn(1, 0, rows, rs); for (size_t i = 0; i < all.size(); i++) if (all[i] == 0) all[i] = 7;
    if (rows) { Buf v(all); BigArray a; size_t d[2] = {rows, (size_t)t.nm}; s.big_array_init(&a, v.p, t.dt, 2, d, NULL); BigBlockPtr q; LOK(s, big_block_seek(&b, &q, 0)); LOK(s, big_block_write(&b, &q, &a)); } if (rows != 2) { double x = 2.5; LOK(s, big_block_set_attr(&b, "Time", &x, "<f8", 1)); LOK(s, big_block_set_attr(&b, "name", "some text", "S1", 9)); LOK(s, big_block_set_attr(&b, "arr", "abcdefgh", ">i2", 4)); } LOK(s, big_block_close(&b));
    size_t one[1] = {2}; LOK(s, big_file_create_block(&f, &b, "g/other", "<i4", 1, 1, one)); { Buf v("12345678"); BigArray a; size_t d[2] = {2, 1}; s.big_array_init(&a, v.p, "<i4", 2, d, NULL); BigBlockPtr q; LOK(s, big_block_seek(&b, &q, 0)); LOK(s, big_block_write(&b, &q, &a)); } LOK(s, big_block_close(&b)); LOK(s, big_file_close(&f));
    std::vector<str> args = {"bigfile-copy-mpi"}; if (nf >= 0) { args.push_back(rows % 2 ? "-N" : "-n"); args.push_back(std::to_string(nf)); } if (chunk >= 0) { args.push_back("-b"); args.push_back(chunk == 3 ? std::to_string(rs * 0x140000000l) : std::to_string(chunk == 0 ? std::max(1, rs - 1) : chunk * rs + rs / 2)); } if (other) { args.push_back("-f"); args.push_back("dst"); }
    args.push_back(nat == 1 ? "nothing" : "src"); args.push_back(nat == 2 ? "nothing" : "g/b"); args.push_back(nat == 5 ? "a blank" : nat == 7 ? "g/b" : "h/copy"); bool must = nat == 1 || nat == 2 || nat == 5 || nat == 7; if (nat == 7) args.erase(std::find(args.begin(), args.end(), "-f"), args.end() - 3); if (nat == 8) { if (!rows) return; args.insert(args.begin() + 1, {"-n", "0"}); must = true; }
    if (nat == 3) { if (fs.empty()) return; unlink(("src/g/b/" + fname(fs.size() - 1)).c_str()); must = true; } if (nat == 4) { if (fs.empty()) return; truncate("src/g/b/000000", 1); must = true; } if (nat == 6) { put("dst", "a file"); must = true; }
    auto before = tree("src"); fmpi_sync = sync; fmpi_wildcards = true; status.assign(n, -1); started.assign(n, false); aborted = false; fmpi_abort_hook = ab; for (int i = 0; i < 33; i++) s_optind[i] = 1;
    fmpi_start(n); std::vector<std::vector<char *>> av(n); std::vector<std::vector<str>> as(n, args); for (int i = 0; i < n; i++) { for (auto &x : as[i]) av[i].push_back(&x[0]); av[i].push_back(nullptr); }
    sched_run(n, [&](int r) { int rt; { McfsScope sc(faulty && nat == 0 ? MCFS_FAULT : MCFS_OFF); rt = tool[r](as[r].size(), av[r].data()); } status[r] = rt & 255; MC_CHECK(rt || fmpi_log(r).find("Finalize") != str::npos, "rank %d ends successfully without MPI_Finalize", r); });
    mcfs_off(); mcfs_heal(); bool ff = mcfs_faults() > 0; int bad = 0; for (int i = 0; i < n; i++) { MC_CHECK(status[i] >= 0, "rank %d has no exit status", i); bad += status[i] != 0; } if (!bad) fmpi_finish();
    auto a2 = tree("src"); for (auto &k : before) MC_CHECK(a2.count(k.first) && a2[k.first] == k.second, "%s has changed", k.first.c_str());
    if (bad) { MC_CHECK(must || ff, "the copy fails (status %d) though nothing went wrong", status[0]); MC_CHECK(bad == n, "the exit status is 0 on %d of %d ranks after a failure", n - bad, n); mc_count(0); mc_state(mc_hash_str("bad")); return; }
    MC_CHECK(!must, "the copy claims success");
    str root = (other ? "dst/" : "src/"); auto x = tree(other ? "dst" : "src"); str dir = root + "h/copy/"; Header h; MC_CHECK(x.count(dir + "header") && parse_header(x[dir + "header"], h), "the copy has no header"); int want = nf >= 0 && fs.size() ? nf : fs.size(); if (fs.empty()) want = 0;
    MC_CHECK(h.dtype == t.dt || h.dtype == "<S3", "the copy has type %s, the original %s", h.dtype.c_str(), t.dt); MC_CHECK(h.nmemb == t.nm && (int)h.fsize.size() == want && total(h.fsize) == rows, "the copy has %zu rows of %d in %zu files, expected %d files", total(h.fsize), h.nmemb, h.fsize.size(), want);
    str got; for (int i = 0; i < want; i++) { str k = dir + fname(i); MC_CHECK(x.count(k), "file %d of the copy is missing", i); str g = x[k]; MC_CHECK(g.size() == h.fsize[i] * rs, "file %d of the copy has %zu bytes", i, g.size()); MC_CHECK(h.sum[i] == bytesum(g), "the checksum of file %d of the copy is %u, its bytes sum up to %u", i, h.sum[i], bytesum(g)); got += g; } MC_CHECK(got == all, "the copy holds %s, the original %s", hex(got).c_str(), hex(all).c_str());
    MC_CHECK(x[dir + "attr-v2"] == before["src/g/b/attr-v2"], "the attributes of the copy are '%s'", show(x[dir + "attr-v2"]).c_str());
    if (ff) mc_count(1); mc_state(tree_hash(x, n * 7 + chunk)); mc_transitions(n);
}
int main(int c, char **v) { nul = fopen("/dev/null", "w"); procs_load(v[0], 6); for (int i = 0; i < 6; i++) { tool[i] = (int (*)(int, char **))dlsym(L[i].h, "tool_main"); if (!tool[i]) { fprintf(stderr, "no main\n"); return 70; } } sched_switch_hook = sw; McOpts o; o.property = "C24"; o.run = run; o.worker_init = sched_fs; o.counters[0] = "failed copies"; o.counters[1] = "faults without consequence"; mc_before_exec = mcfs_reset; return mc_main(c, v, o); }
