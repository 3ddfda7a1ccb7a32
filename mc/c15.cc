// C15: histories of collective operations leave the files the same history leaves when one process executes it.
#include "ranks.h"
static const char *DT = "<i4"; static const int RS = 4;
static str rows(int stamp, size_t r0, size_t n) { return rowsn(stamp, r0, n, RS); }
static void arr(Lib &l, BigArray *a, Buf &b) { size_t d[2] = {b.n / RS, 1}; l.big_array_init(a, b.p, DT, 2, d, NULL); }
enum { OPEN, CREATE, GROW0, GROW1, WRITE_A, WRITE_B, WRITE_LOCAL, ATTR, ATTR_ROOT, RMATTR, FLUSH, REOPEN, READ, NOP_ };
static const char *ON[] = {"open", "create", "grow by {1,2}", "grow by {2}", "write all", "write the unwritten half", "independent writes", "set attributes", "set an attribute on the root", "remove attribute", "flush", "close and open", "read"};
struct St { bool open = false; sizes_t fs; };
static const std::vector<sizes_t> PARTS = {{4}, {1, 0, 3}, {2, 2}, {}};
struct View { int nfile; size_t size; str dt; int nm; sizes_t fs; str attrs; };
static View view(Lib &l, BigBlock &b) { View v; v.nfile = b.Nfile; v.size = b.size; v.dt = b.dtype; v.nm = b.nmemb; for (int i = 0; i < b.Nfile; i++) v.fs.push_back(b.fsize[i]); size_t n; BigAttr *a = l.big_block_list_attrs(&b, &n); for (size_t i = 0; i < n; i++) v.attrs += str(a[i].name) + "=" + a[i].dtype + " " + std::to_string(a[i].nmemb) + ":" + hex(str(a[i].data, width(a[i].dtype) * a[i].nmemb)) + ";"; return v; }
static void run() {
    int n = 1 + mc_choose(mc_thorough() ? 4 : 3, "ranks"), agg = mc_choose(2, "aggregate"), parts = mc_choose(PARTS.size(), "partition"), conc = mc_thorough() ? mc_choose(2) : parts == 0, start = mc_choose(2, "start");
    fmpi_sync = mc_choose(2, "late"); int depth = mc_thorough() ? 4 : 3; std::vector<int> ops; ops.push_back(start ? OPEN : CREATE); int first = mc_choose(NOP_ - 1) + 1; if (first == CREATE && start == 0) first = FLUSH; mc_split(); ops.push_back(first); for (int i = 1; i < depth; i++) ops.push_back(GROW0 + mc_choose(NOP_ - GROW0));
    mc_wipe("."); str d; for (int o : ops) d += str(ON[o]) + ", "; mc_note("%d ranks, %s%s", n, d.c_str(), agg ? "aggregated" : ""); for (int i = 0; i < n; i++) { L[i].big_file_set_buffer_size(8); L[i].big_file_mpi_set_aggregated_threshold(agg ? 100 : 0); }
    Lib &l0 = L[0]; L[4].big_file_set_buffer_size(8);
    for (const char *root : {"f", "s"}) { BigFile f; BigBlock b; LOK(l0, big_file_create(&f, root)); const sizes_t &fs = PARTS[parts]; LOK(l0, big_file_create_block(&f, &b, "g/b", DT, 1, fs.size(), fs.data())); size_t t = total(fs); if (t) { Buf v(rows(7, 0, t)); BigArray a; arr(l0, &a, v); BigBlockPtr p; LOK(l0, big_block_seek(&b, &p, 0)); LOK(l0, big_block_write(&b, &p, &a)); } LOK(l0, big_block_set_attr(&b, "old", "x", "S1", 1)); LOK(l0, big_block_close(&b)); LOK(l0, big_file_close(&f)); }
    // each row is written at most once per life of the block unless the block was opened with everything written: sums of rows written twice are not defined
    std::vector<bool> written(total(PARTS[parts]), start == 1);
    struct Step { int op; size_t at, cnt; std::vector<size_t> per; std::vector<size_t> who; sizes_t grow; }; std::vector<Step> plan; sizes_t fs = PARTS[parts];
    for (size_t k = 0; k < ops.size(); k++) { Step s; s.op = ops[k]; s.at = s.cnt = 0;
        if (s.op == CREATE) { fs = PARTS[parts]; written.assign(total(fs), false); }
        if (s.op == GROW0) s.grow = {1, 2}; if (s.op == GROW1) s.grow = {2}; if (!s.grow.empty()) { for (auto g : s.grow) fs.push_back(g); written.resize(total(fs)); }
        if (s.op >= WRITE_A && s.op <= WRITE_LOCAL) { size_t a = 0; while (a < written.size() && written[a]) a++; size_t e = a; while (e < written.size() && !written[e]) e++; s.at = a; s.cnt = e - a; if (s.op == WRITE_B) s.cnt = (s.cnt + 1) / 2; for (size_t i = 0; i < s.cnt; i++) written[s.at + i] = true; }
        if (s.op == READ) while (s.cnt < written.size() && written[s.cnt]) s.cnt++;
        s.per.assign(n, 0); for (size_t i = 0; i < s.cnt; i++) s.per[s.op == WRITE_B ? n - 1 - i % n : s.op == WRITE_LOCAL && parts % 2 ? n - 1 : i * n / s.cnt]++; plan.push_back(s); }
    // the same history by one process
    { Lib &l = L[4]; BigFile f; BigBlock b; LOK(l, big_file_open(&f, "s")); for (auto &s : plan) { Buf v(rows(3, s.at, s.cnt)); BigArray a; arr(l, &a, v); BigBlockPtr p; switch (s.op) {
        case OPEN: LOK(l, big_file_open_block(&f, &b, "g/b")); break; case CREATE: if (&s != &plan[0]) LOK(l, big_block_close(&b)); LOK(l, big_file_create_block(&f, &b, "g/b", DT, 1, PARTS[parts].size(), PARTS[parts].data())); break;
        case GROW0: case GROW1: LOK(l, big_block_grow(&b, s.grow.size(), s.grow.data())); break; case WRITE_A: case WRITE_B: case WRITE_LOCAL: if (s.cnt) { LOK(l, big_block_seek(&b, &p, s.at)); LOK(l, big_block_write(&b, &p, &a)); } break;
        case ATTR: { int x = 5; LOK(l, big_block_set_attr(&b, "count", &x, "<i4", 1)); LOK(l, big_block_set_attr(&b, "a_name", "text", "S1", 4)); } break; case ATTR_ROOT: LOK(l, big_block_set_attr(&b, "root", "R", "S1", 1)); break; case RMATTR: l.big_block_remove_attr(&b, "old"); l.big_block_remove_attr(&b, "count"); break;
        case FLUSH: LOK(l, big_block_flush(&b)); break; case REOPEN: LOK(l, big_block_close(&b)); LOK(l, big_file_open_block(&f, &b, "g/b")); break; } } LOK(l, big_block_close(&b)); LOK(l, big_file_close(&f)); }
    std::vector<View> vs(n); std::map<str, str> mid; int nstep = 0;
    ranks(n, [&](int r, Lib &l) { MPI_Comm W = MPI_COMM_WORLD; BigFile f; BigBlock b; LOK(l, big_file_mpi_open(&f, "f", W)); bool sync = true; sizes_t cur = PARTS[parts]; std::map<str, bool> rooted; bool dirtyroot = false;
        for (auto &s : plan) { size_t off = 0; for (int i = 0; i < r; i++) off += s.per[i]; Buf v(rows(3, s.at + off, s.per[r])); BigArray a; arr(l, &a, v); BigBlockPtr p; int c = conc ? 1 : 0; switch (s.op) {
            case OPEN: LOK(l, big_file_mpi_open_block(&f, &b, "g/b", W)); break; case CREATE: if (&s != &plan[0]) LOK(l, big_block_mpi_close(&b, W)); LOK(l, _big_file_mpi_create_block(&f, &b, "g/b", DT, 1, PARTS[parts].size(), PARTS[parts].data(), W)); cur = PARTS[parts]; break;
            case GROW0: case GROW1: LOK(l, big_block_mpi_grow(&b, s.grow.size(), s.grow.data(), W)); for (auto g : s.grow) cur.push_back(g); break;
            case WRITE_A: case WRITE_B: if (s.cnt) { LOK(l, big_block_seek(&b, &p, s.at)); LOK(l, big_block_mpi_write(&b, &p, &a, c, W)); } break;
            case WRITE_LOCAL: if (s.per[r]) { LOK(l, big_block_seek(&b, &p, s.at + off)); LOK(l, big_block_write(&b, &p, &a)); } break;
            case ATTR: { int x = 5; LOK(l, big_block_set_attr(&b, "count", &x, "<i4", 1)); LOK(l, big_block_set_attr(&b, "a_name", "text", "S1", 4)); } break; case ATTR_ROOT: if (r == 0) LOK(l, big_block_set_attr(&b, "root", "R", "S1", 1)); dirtyroot = true; break;
            case RMATTR: l.big_block_remove_attr(&b, "old"); l.big_block_remove_attr(&b, "count"); break; case FLUSH: LOK(l, big_block_mpi_flush(&b, W)); dirtyroot = false; break; case REOPEN: LOK(l, big_block_mpi_close(&b, W)); LOK(l, big_file_mpi_open_block(&f, &b, "g/b", W)); dirtyroot = false; break;
            case READ: { Buf q(s.per[r] * RS); BigArray x; arr(l, &x, q); LOK(l, big_block_seek(&b, &p, 0)); LOK(l, big_block_mpi_read(&b, &p, &x, c, W)); } break; }
            if (s.op == GROW0 || s.op == GROW1 || s.op == CREATE) dirtyroot = false;
            vs[r] = view(l, b); MPI_Barrier(W); if (r == 0 && !dirtyroot) { nstep++; for (int i = 0; i < n; i++) { View &x = vs[0], &y = vs[i]; MC_CHECK(y.fs == cur && y.size == total(cur) && y.nfile == (int)cur.size() && y.dt == DT && y.nm == 1, "after %s: rank %d sees %zu rows in %s of %s x %d", ON[s.op], i, y.size, fmt_sizes(y.fs).c_str(), y.dt.c_str(), y.nm); MC_CHECK(x.attrs == y.attrs, "after %s: rank %d sees the attributes %s, the root %s", ON[s.op], i, y.attrs.c_str(), x.attrs.c_str()); } } MPI_Barrier(W); }
        LOK(l, big_block_mpi_close(&b, W)); LOK(l, big_file_mpi_close(&f, W)); });
    auto x = tree("f"), y = tree("s"); for (auto &p : y) { str q = "f" + p.first.substr(1); MC_CHECK(x.count(q), "%s is missing", q.c_str()); MC_CHECK(x[q] == p.second, "%s is '%s', one process leaves '%s'", q.c_str(), show(x[q]).c_str(), show(p.second).c_str()); } MC_CHECK(x.size() == y.size(), "there are %zu files, one process leaves %zu", x.size(), y.size());
    Header h; MC_CHECK(parse_header(x["f/g/b/header"], h), "malformed header"); for (size_t i = 0; i < fs.size(); i++) { str &dd = x["f/g/b/" + fname(i)]; MC_CHECK(h.sum[i] == bytesum(dd), "the checksum of file %zu is %u, its bytes sum up to %u", i, h.sum[i], bytesum(dd)); }
    mc_state(tree_hash(x, n)); mc_transitions(plan.size() * n);
}
int main(int c, char **v) { procs_load(v[0], 5); McOpts o; o.property = "C15"; o.run = run; o.worker_init = sched_fs; mc_before_exec = mcfs_reset; return mc_main(c, v, o); }
