// C18, collective part: histories of collective record operations against the same history by one process.
#include "ranks.h"
struct F { const char *name, *dt; int nm; };
static const std::vector<std::vector<F>> TS = {{{"x", "<i4", 1}, {"g/y", ">u2", 2}}, {{"g/z", "|S3", 1}}, {{"b", "<f8", 1}, {"a", "<i8", 3}, {"c", "<S1", 5}}};
static const std::vector<sizes_t> LAY = {{2}, {1, 0, 2}, {}};
enum { CREATE0, CREATE1, CREATE2, APPEND, APPEND0, WRITE, WRITE1, WRITE_TAIL, READ, NOPS };
static const char *ON[] = {"create 2", "create {1,0,2}", "create nothing", "append {0,2}", "append {}", "write all", "write row 1", "write the last rows", "read"};
static void type(Lib &l, BigRecordType &t, const std::vector<F> &fs) { memset(&t, 0, sizeof t); for (auto &f : fs) l.big_record_type_add(&t, f.name, f.dt, f.nm); l.big_record_type_complete(&t); }
static void run() {
    int n = 1 + mc_choose(mc_thorough() ? 4 : 3, "ranks"), ty = mc_choose(TS.size()), agg = mc_choose(2), conc = mc_choose(2), dist = mc_choose(3); fmpi_sync = mc_thorough() ? mc_choose(2) : (agg + conc + ty) & 1; int depth = mc_thorough() ? 3 : 2; std::vector<int> ops = {mc_choose(3)}; mc_split(); while ((int)ops.size() < depth + 1) ops.push_back(mc_choose(NOPS));
    const auto &T = TS[ty]; int rs = 0; for (auto &f : T) rs += width(f.dt) * f.nm;
    mc_wipe("."); str d; for (int o : ops) d += str(ON[o]) + ", "; mc_note("%d ranks, type %d, %sdistribution %d: %s", n, ty, agg ? "aggregated, " : "", dist, d.c_str()); for (int i = 0; i < 5; i++) { L[i].big_file_set_buffer_size(16); L[i].big_file_mpi_set_aggregated_threshold(agg ? 1000 : 0); }
    Lib &s = L[4]; BigRecordType t; type(s, t, T); { BigFile f; LOK(s, big_file_create(&f, "s")); LOK(s, big_file_create(&f, "f")); }
    struct Step { int op; size_t at = 0, cnt = 0; sizes_t fs; std::vector<size_t> per; str data; bool readable = false; }; std::vector<Step> plan; std::vector<str> rows; bool never = false; std::vector<bool> wrt;
    for (size_t k = 0; k < ops.size(); k++) { Step x; x.op = ops[k]; if (x.op <= CREATE2) { x.fs = LAY[x.op]; wrt.assign(total(x.fs), false); } if (x.op == APPEND) { x.fs = {0, 2}; wrt.resize(wrt.size() + 2, false); }
        size_t R = wrt.size(); if (x.op == WRITE) x.cnt = R; if (x.op == WRITE1 && R > 1) x.at = 1, x.cnt = 1; if (x.op == WRITE_TAIL) x.at = R - R / 2, x.cnt = R / 2; if (x.op >= WRITE && x.op < READ) for (size_t i = 0; i < x.cnt; i++) { if (wrt[x.at + i]) never = true; wrt[x.at + i] = true; }
        if (x.op == READ) { while (x.cnt < R && wrt[x.cnt]) x.cnt++; }
        x.per.assign(n, 0); for (size_t i = 0; i < x.cnt; i++) x.per[dist == 0 ? i * n / x.cnt : dist == 1 ? n - 1 : std::min<size_t>(i, n - 1)]++; if (x.op >= WRITE && x.op < READ) x.data = rowsn(k + 1, x.at, x.cnt, rs); plan.push_back(x); }
    { BigFile f; LOK(s, big_file_open(&f, "s")); for (auto &x : plan) { Buf b(x.op == READ ? str(x.cnt * rs, 0) : x.data); switch (x.op) { case CREATE0: case CREATE1: case CREATE2: LOK(s, big_file_create_records(&f, &t, "w+", x.fs.size(), x.fs.data())); break; case APPEND: case APPEND0: LOK(s, big_file_create_records(&f, &t, "a+", x.fs.size(), x.fs.data())); break; case READ: LOK(s, big_file_read_records(&f, &t, 0, x.cnt, b.p)); x.data = b.s(); break; default: LOK(s, big_file_write_records(&f, &t, x.at, x.cnt, b.p)); } } LOK(s, big_file_close(&f)); }
    ranks(n, [&](int r, Lib &l) { MPI_Comm W = MPI_COMM_WORLD; BigFile f; LOK(l, big_file_mpi_open(&f, "f", W)); BigRecordType t; type(l, t, T);
        for (auto &x : plan) { size_t off = 0; for (int i = 0; i < r; i++) off += x.per[i]; str mine = x.data.substr(off * rs, x.per[r] * rs); switch (x.op) { case CREATE0: case CREATE1: case CREATE2: LOK(l, big_file_mpi_create_records(&f, &t, "w+", x.fs.size(), x.fs.data(), W)); break; case APPEND: case APPEND0: LOK(l, big_file_mpi_create_records(&f, &t, "a+", x.fs.size(), x.fs.data(), W)); break;
            case READ: { Buf b(str(mine.size(), '\x5a')); LOK(l, big_file_mpi_read_records(&f, &t, 0, x.per[r], b.p, conc, W)); MC_CHECK(b.s() == mine, "rank %d reads the records %s, one process reads %s", r, hex(b.s()).c_str(), hex(mine).c_str()); break; }
            default: { Buf b(mine); LOK(l, big_file_mpi_write_records(&f, &t, x.at, x.per[r], b.p, conc, W)); MC_CHECK(b.s() == mine, "rank %d: the caller's records changed", r); } } }
        l.big_record_type_clear(&t); LOK(l, big_file_mpi_close(&f, W)); });
    auto x = tree("f"), y = tree("s"); for (auto &p : y) { str q = "f" + p.first.substr(1); MC_CHECK(x.count(q), "%s is missing", q.c_str()); if (never && q.size() > 6 && q.substr(q.size() - 6) == "header") continue; MC_CHECK(x[q] == p.second, "%s is '%s', one process leaves '%s'", q.c_str(), show(x[q]).c_str(), show(p.second).c_str()); } MC_CHECK(x.size() == y.size(), "there are %zu files, one process leaves %zu", x.size(), y.size());
    s.big_record_type_clear(&t); mc_state(tree_hash(x, n)); mc_transitions(plan.size() * n);
}
int main(int c, char **v) { procs_load(v[0], 5); McOpts o; o.property = "C18"; o.run = run; o.worker_init = sched_fs; mc_before_exec = mcfs_reset; return mc_main(c, v, o); }
