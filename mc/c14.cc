// C14: collective calls that fail: the same failure on every rank, nothing hangs, nothing is put elsewhere.
#include "ranks.h"
static const int RS = 4; static const sizes_t FS = {2, 1, 1}; static const char *DT = "<i4";
struct Res { int rt = 0; str msg; bool there = false; };
static std::vector<std::vector<Res>> calls; static std::vector<size_t> at_call; static int nr, mode;
enum { OK_ = 0, MUST_FAIL = 1, MAY_FAIL = 2, MUST_SUCCEED = 3 };
// one collective call: true if it succeeded (on every rank)
template <class F> static bool coll(int r, Lib &l, const char *what, int expect, F f) {
    size_t k = at_call[r]++; if (calls.size() <= k) { calls.resize(k + 1); calls[k].resize(nr); } l.big_file_set_error_message(NULL); int before = mcfs_faults(), rt; { McfsScope s(mode); rt = f(); }
    Res &x = calls[k][r]; x.rt = rt; x.there = true; if (rt) { char *m = l.big_file_get_error_message(); x.msg = m ? m : ""; mc_note("  %d: %s fails: %s", r, what, x.msg.c_str()); }
    MPI_Barrier(MPI_COMM_WORLD); Res me = calls[k][r];
    for (int i = 0; i < nr; i++) { Res o = calls[k][i]; MC_CHECK(o.there, "rank %d is not there", i); MC_CHECK((o.rt != 0) == (rt != 0), "%s: rank %d %s, rank %d %s (%s)", what, r, rt ? "fails" : "succeeds", i, o.rt ? "fails" : "succeeds", rt ? me.msg.c_str() : o.msg.c_str()); if (rt) { MC_CHECK(o.msg == me.msg, "%s: rank %d says '%s', rank %d says '%s'", what, r, me.msg.c_str(), i, o.msg.c_str()); MC_CHECK(me.msg.size(), "%s: rank %d fails without a message", what, r); } }
    MPI_Barrier(MPI_COMM_WORLD); (void)before; mcfs_heal();
    if (expect == MUST_FAIL) MC_CHECK(rt, "%s succeeds", what); if (expect == MUST_SUCCEED) MC_CHECK(!rt, "%s failed: %s", what, me.msg.c_str()); if (expect == OK_ && rt) MC_CHECK(mcfs_faults() > 0, "%s failed though nothing went wrong: %s", what, me.msg.c_str());
    if (rt) mc_count(0); return rt == 0;
}
#define C(what, expect, call) coll(r, l, what, expect, [&]() { return l.call; })
enum { P_OPEN, P_CREATE, P_GROW, P_RW, P_REC, P_FLUSH, NP };
struct Plan { int kind, nat, at, conc, badtype, late; size_t thr; std::vector<size_t> cnt; bool wr; };
static void run() {
    nr = 1 + mc_choose(mc_thorough() ? 4 : 3, "ranks"); Plan p; p.kind = mc_choose(NP, "kind"); p.late = mc_choose(2); p.at = p.conc = p.nat = 0; p.thr = 0; p.badtype = -1; p.wr = false;
    size_t tot = 0; const char *nats[] = {"", "", ""}; (void)nats;
    if (p.kind == P_RW) { p.wr = mc_choose(2); bool few = nr == 3 && !mc_thorough(); p.thr = mc_choose(2) ? 100 : few ? 0 : mc_choose(2); p.conc = mc_choose(mc_thorough() ? 3 : 2); mc_split(); if (!few) p.at = mc_pick(std::vector<int>{0, 1, 3}); for (int i = 0; i < nr; i++) { p.cnt.push_back(mc_choose(nr > 3 ? 2 : 3)); tot += p.cnt[i]; } if (few) { static const int A[] = {1, 0, 3, 1}; p.at = A[(p.cnt[0] + 2 * p.cnt[1] + p.cnt[2]) % 4]; } p.nat = tot <= 4u - p.at ? mc_choose(4, "natural") : 0; if (p.nat == 1) { p.badtype = mc_choose(nr); if (!p.cnt[p.badtype]) return; } if ((p.nat == 2 || p.nat == 3) && p.wr) return; }
    else p.nat = mc_choose(p.kind == P_OPEN ? 8 : p.kind == P_CREATE ? 7 : p.kind == P_GROW ? 3 : p.kind == P_FLUSH ? 4 : 7, "natural"), mc_split();
    mode = p.nat && p.kind != P_FLUSH ? MCFS_OFF : mc_thorough() && nr < 3 ? MCFS_SCHED_FAULT : MCFS_FAULT; fmpi_sync = p.late; calls.clear(); at_call.assign(nr, 0);
    for (int i = 0; i < 5; i++) { L[i].big_file_set_buffer_size(8); if (i < nr) L[i].big_file_mpi_set_aggregated_threshold(p.thr); }
    str cs; for (auto c : p.cnt) cs += std::to_string(c) + " "; static const char *kn[] = {"open", "create", "grow", "access", "records", "flush"}; mc_note("%d ranks, %s, case %d, %s rows at %d, %s, concurrency %d, threshold %zu, type of rank %d", nr, kn[p.kind], p.nat, cs.c_str(), p.at, p.wr ? "write" : "read", p.conc, p.thr, p.badtype);
    mc_wipe("."); Lib &s = L[4]; BigFile f0; BigBlock b0; LOK(s, big_file_create(&f0, "f")); LOK(s, big_file_create_block(&f0, &b0, "g/b", DT, 1, FS.size(), FS.data())); Buf v(rowsn(9, 0, 4, RS)); BigArray a0; size_t d[2] = {4, 1}; s.big_array_init(&a0, v.p, DT, 2, d, NULL); BigBlockPtr q0; LOK(s, big_block_seek(&b0, &q0, 0)); LOK(s, big_block_write(&b0, &q0, &a0)); LOK(s, big_block_set_attr(&b0, "x", "y", "S1", 1)); LOK(s, big_block_close(&b0)); 
    BigRecordType rt; memset(&rt, 0, sizeof rt); s.big_record_type_add(&rt, "r/one", "<i4", 1); s.big_record_type_add(&rt, "r/two", "<u2", 2); s.big_record_type_complete(&rt);
    const char *fname_ = "f", *bname = "g/b"; bool badfile = false, badblock = false;
    if (p.kind == P_OPEN) switch (p.nat) { case 1: fname_ = "nothing"; badfile = true; break; case 2: bname = "nothing"; badblock = true; break; case 3: unlink("f/g/b/header"); badblock = true; break; case 4: put("f/g/b/header", "DTYPE: <i4\nNMEMB: 1\nNFILE: 3\n000000: 2 : 0 : 0\n"); badblock = true; break; case 5: put("f/g/b/header", ""); badblock = true; break; case 6: put("f/g/b/attr-v2", "x S1 1\n"); badblock = true; break; case 7: put("f/g/b/header", "DTYPE: <i4\nNMEMB: 1\nNFILE: -3\n"); badblock = true; break; }
    if (p.kind == P_RW && p.nat == 2) unlink("f/g/b/000001"); if (p.kind == P_RW && p.nat == 3) truncate("f/g/b/000001", 2);
    if (p.kind == P_REC && p.nat == 5) { put("f/r", "a file"); }
    auto before = tree("f"); size_t f2[3] = {1, 0, 2}; bool grown = false, done = false, closed = false;
    ranks(nr, [&](int r, Lib &l) { MPI_Comm W = MPI_COMM_WORLD; BigFile f; BigBlock b; memset(&b, 0, sizeof b);
        if (p.kind == P_CREATE && p.nat == 1) { C("create file", MUST_FAIL, big_file_mpi_create(&f, "f/g/b/000000/x", W)); return; }
        if (!C("open file", badfile ? MUST_FAIL : OK_, big_file_mpi_open(&f, fname_, W))) return;
        BigBlockPtr q;
        switch (p.kind) {
        case P_OPEN: { if (!C("open", badblock ? MUST_FAIL : OK_, big_file_mpi_open_block(&f, &b, bname, W))) break; if (r == 0) LOK(l, big_block_set_attr(&b, "x", "z", "S1", 1)); C("flush", OK_, big_block_mpi_flush(&b, W)); C("close", OK_, big_block_mpi_close(&b, W)); break; }
        case P_CREATE: { const char *n = p.nat == 2 ? "g/b/000000/c" : p.nat == 3 ? "a b" : "new"; const char *dt = p.nat == 4 ? "toolongdtype" : p.nat == 5 ? "<q9" : DT; size_t huge[3] = {1, (size_t)-1 / 2, (size_t)-1 / 2}; if (!C("create block", p.nat ? MUST_FAIL : OK_, _big_file_mpi_create_block(&f, &b, n, dt, 1, 3, p.nat == 6 ? huge : f2, W))) break;
            Buf w(rowsn(3, r, 1, RS)); BigArray a; size_t dd[2] = {r < 3 ? 1u : 0u, 1}; l.big_array_init(&a, w.p, DT, 2, dd, NULL); LOK(l, big_block_seek(&b, &q, 0)); C("write", OK_, big_block_mpi_write(&b, &q, &a, 1, W)); if (C("close", OK_, big_block_mpi_close(&b, W))) closed = true; break; }
        case P_GROW: { if (!C("open", OK_, big_file_mpi_open_block(&f, &b, bname, W))) break; size_t bad[3] = {1, (size_t)-1 / 2, 1}; bool g = p.nat ? (C("grow", MUST_FAIL, big_block_mpi_grow(&b, p.nat == 1 ? 3 : -1, bad, W))) : C("grow", OK_, big_block_mpi_grow(&b, 3, f2, W)); if (r == 0) grown = g; int nf = FS.size() + (g ? 3 : 0); MC_CHECK(b.Nfile == nf && b.size == (g ? 7u : 4u), "rank %d: the grow %s and the block has %d files and %zu rows", r, g ? "succeeded" : "failed", b.Nfile, b.size); if (C("close", OK_, big_block_mpi_close(&b, W))) closed = true; break; }
        case P_RW: { if (!C("open", OK_, big_file_mpi_open_block(&f, &b, bname, W))) break; size_t off = 0; for (int i = 0; i < r; i++) off += p.cnt[i]; bool over = p.at + tot > 4, bad = r == p.badtype; Buf w(p.wr ? rowsn(1, p.at + off, p.cnt[r], RS) : str(p.cnt[r] * RS, 0)); BigArray a; size_t dd[2] = {p.cnt[r], 1}; l.big_array_init(&a, w.p, bad ? "<u2" : DT, 2, dd, NULL); LOK(l, big_block_seek(&b, &q, p.at));
            bool touches1 = p.at <= 2 && p.at + tot > 2; int ex = over || p.nat == 1 || ((p.nat == 2 || p.nat == 3) && touches1) ? MUST_FAIL : OK_;
            bool ok = p.wr ? C("write", ex, big_block_mpi_write(&b, &q, &a, p.conc, W)) : C("read", ex, big_block_mpi_read(&b, &q, &a, p.conc, W)); if (ok) { MC_CHECK(q.aoffset == (ptrdiff_t)(p.at + tot), "the position is %td afterwards", q.aoffset); if (!p.wr) MC_CHECK(w.s() == rowsn(9, p.at + off, p.cnt[r], RS), "rank %d: a successful read gave %s", r, hex(w.s()).c_str()); if (p.wr) done = true; }
            else { int m = mode; mode = MCFS_OFF; Buf o(r == 0 ? RS : 0); BigArray x; size_t de[2] = {r == 0 ? 1u : 0u, 1}; l.big_array_init(&x, o.p, DT, 2, de, NULL); LOK(l, big_block_seek(&b, &q, 3)); C("reading on", OK_, big_block_mpi_read(&b, &q, &x, p.conc, W)); if (r == 0 && (!p.wr || p.at + tot <= 3)) MC_CHECK(o.s() == rowsn(9, 3, 1, RS), "the last row reads as %s after the failure", hex(o.s()).c_str()); mode = m; }
            if (C("close", OK_, big_block_mpi_close(&b, W))) closed = true; break; }
        case P_FLUSH: { int m = mode; mode = MCFS_OFF; size_t fz[3] = {1, 0, 3}; C("create", MUST_SUCCEED, _big_file_mpi_create_block(&f, &b, "g/n", DT, 1, 3, fz, W)); if (p.nat & 1) C("flush", MUST_SUCCEED, big_block_mpi_flush(&b, W));
            Buf w(rowsn(3, r, 1, RS)); BigArray a; size_t dd[2] = {1, 1}; l.big_array_init(&a, w.p, DT, 2, dd, NULL); LOK(l, big_block_seek(&b, &q, 0)); C("write", MUST_SUCCEED, big_block_mpi_write(&b, &q, &a, 1, W)); if (r == 0) LOK(l, big_block_set_attr(&b, "x", "z", "S1", 1)); mode = m;
            if (p.nat & 2) { if (C("grow", OK_, big_block_mpi_grow(&b, 2, f2, W)) && r == 0) grown = true; }
            if (!C("flush", OK_, big_block_mpi_flush(&b, W))) { int k = mode; mode = MCFS_OFF; C("flush again", MUST_SUCCEED, big_block_mpi_flush(&b, W)); mode = k; } done = true; if (C("close", OK_, big_block_mpi_close(&b, W))) closed = true; break; }
        case P_REC: { size_t bad[3] = {1, (size_t)-1 / 2, (size_t)-1 / 2}; if (!C("create records", p.nat == 1 || p.nat == 2 || p.nat == 5 ? MUST_FAIL : OK_, big_file_mpi_create_records(&f, &rt, p.nat == 1 ? "x" : "w+", 3, p.nat == 2 ? bad : f2, W))) break; size_t k = r < 3 ? 1 : 0, o = r < 3 ? r : 3; Buf w(rowsn(3, o, k, 8)); int bt = p.nat == 3 ? 4 : p.nat == 4 ? 1 : 0; bool over = bt + std::min(nr, 3) > 3;
            C("write records", over ? MUST_FAIL : OK_, big_file_mpi_write_records(&f, &rt, bt, k, w.p, 1, W)); if (p.nat == 6) { if (r == 0) { unlink("f/r/one/header"); } MPI_Barrier(W); C("append", MUST_FAIL, big_file_mpi_create_records(&f, &rt, "a+", 3, f2, W)); C("write", MUST_FAIL, big_file_mpi_write_records(&f, &rt, 0, k, w.p, 1, W)); break; }
            Buf z(k * 8); if (!over && C("read records", mode ? MAY_FAIL : OK_, big_file_mpi_read_records(&f, &rt, bt, k, z.p, 1, W)) && !mcfs_faults()) MC_CHECK(z.s() == w.s(), "rank %d reads back %s", r, hex(z.s()).c_str()); C("append", OK_, big_file_mpi_create_records(&f, &rt, "a+", 3, f2, W)); break; }
        }
        coll(r, l, "close file", OK_, [&]() { return l.big_file_mpi_close(&f, W); }); });
    auto x = tree("f"); bool ff = mcfs_faults() > 0; auto same = [&](const str &k) { MC_CHECK(x[k] == before[k], "%s was '%s' and is '%s'", k.c_str(), show(before[k]).c_str(), show(x[k]).c_str()); };
    str now; for (size_t i = 0; i < FS.size(); i++) { str g = x["f/g/b/" + fname(i)]; if (!(p.kind == P_RW && p.nat >= 2)) MC_CHECK(g.size() == FS[i] * RS, "data file %zu has %zu bytes", i, g.size()); now += g; }
    if (p.kind == P_RW && p.wr) { str o = rowsn(9, 0, 4, RS), w = rowsn(1, p.at, tot, RS); for (size_t i = 0; i < 4 * RS; i++) { bool in = i >= (size_t)p.at * RS && i < (p.at + tot) * RS; char nw = in ? w[i - p.at * RS] : o[i]; MC_CHECK(now[i] == o[i] || now[i] == nw, "row %zu is %s, which nobody wrote there%s", i / RS, hex(now.substr(i / RS * RS, RS)).c_str(), done ? "" : ": the write failed"); if (done && closed) MC_CHECK(now[i] == nw, "row %zu is %s, the write succeeded", i / RS, hex(now.substr(i / RS * RS, RS)).c_str()); } same("f/g/b/attr-v2"); if (tot == 0 || !ff) { if (tot == 0) same("f/g/b/header"); } }
    else for (auto &k : before) { if (p.kind == P_OPEN && !badblock && k.first == "f/g/b/attr-v2") continue; if (p.kind == P_GROW && k.first == "f/g/b/header") continue; same(k.first); }
    if (p.kind == P_CREATE && closed && !ff) MC_CHECK(x["f/new/000000"] == rowsn(3, 0, 1, RS), "the new block holds %s", hex(x["f/new/000000"]).c_str());
    if (p.kind == P_FLUSH && done) { Header h; MC_CHECK(parse_header(x["f/g/n/header"], h), "the header of the block is '%s'", show(x["f/g/n/header"]).c_str()); int nf = 3 + (grown ? 2 : 0); MC_CHECK(h.nfile == nf, "the header lists %d files, it must be %d", h.nfile, nf); str got; for (int i = 0; i < nf; i++) { str &dd = x["f/g/n/" + fname(i)]; got += dd; MC_CHECK(h.sum[i] == bytesum(dd), "the checksum of file %d is %u, its bytes sum up to %u", i, h.sum[i], bytesum(dd)); } MC_CHECK(got == rowsn(3, 0, nr, RS), "the rows are %s", hex(got).c_str()); MC_CHECK(x["f/g/n/attr-v2"].find("x ") == 0, "the attributes are '%s'", show(x["f/g/n/attr-v2"]).c_str()); }
    if (p.kind == P_GROW && closed) { if (!grown) same("f/g/b/header"); else for (int i = 3; i < 6; i++) MC_CHECK(x.count("f/g/b/" + fname(i)), "data file %d is missing", i); BigFile f1; BigBlock b1; LOK(s, big_file_open(&f1, "f")); LOK(s, big_file_open_block(&f1, &b1, "g/b")); MC_CHECK(b1.size == (grown ? 7u : 4u), "the grow %s, and the stored block has %zu rows", grown ? "succeeded" : "failed", b1.size); LOK(s, big_block_close(&b1)); LOK(s, big_file_close(&f1)); }
    if (ff) mc_count(1); mc_state(tree_hash(x, p.kind * 31 + p.nat * 7 + nr)); mc_transitions(calls.size() * nr);
}
int main(int c, char **v) { procs_load(v[0], 5); McOpts o; o.property = "C14"; o.run = run; o.worker_init = sched_fs; o.deviations = 1; o.counters[0] = "failed calls (per rank)"; o.counters[1] = "executions with an injected fault"; mc_before_exec = mcfs_reset; return mc_main(c, v, o); }
