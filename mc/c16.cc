// C16: the MPI helper routines.
#include "ranks.h"
static Lib *LL(int r) { return &L[r]; }
static void alltoall() {
    int n = 1 + mc_choose(mc_thorough() ? 5 : 4, "ranks"), pol = mc_choose(3, "policy"), nulls = mc_choose(8, "omitted"), sync = mc_choose(2); int three = mc_choose(4, "type"); if ((n == 4 && three && !mc_thorough()) || (three > 1 && (nulls & 2))) { mc_split(); return; } mc_split(); int gap = mc_choose(3, "layout");
    std::vector<std::vector<int>> c(n, std::vector<int>(n)); int vals = n <= 2 ? 4 : n == 3 ? 2 : 2, full = n <= 3 ? n * n : n * n - 6;
    if (n == 5) { int row[5]; for (int i = 0; i < 5; i++) row[i] = mc_choose(3); for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) c[i][j] = row[(i * 2 + j) % 5]; }
    else { int k = 0, prev = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++, k++) { int v = k < full ? mc_choose(vals) : (prev + i) % 2; prev += v; c[i][j] = v ? v + (i + 2 * j) % 3 : 0; } }
    int es = three ? 3 : 4; auto cell = [&](int i, int j, int k) { str s(es, 0); for (int b = 0; b < es; b++) s[b] = pat(i * 16 + j + 1, k, b); return s; };
    fmpi_sync = sync; std::vector<str> got(n);
    ranks(n, [&](int r, Lib &l) {
        MPI_Datatype t = MPI_INT; if (three) { /* 2: received as bytes, 3: sent as bytes */ MPI_Type_contiguous(3, MPI_BYTE, &t); MPI_Type_commit(&t); } MPI_Datatype ts = three == 3 ? MPI_BYTE : t, tr = three == 2 ? MPI_BYTE : t; int us = three == 3 ? 3 : 1, ur = three == 2 ? 3 : 1;
        std::vector<int> sc = c[r], rc(n), sd(n), rd(n); for (int i = 0; i < n; i++) rc[i] = c[i][r]; int s = 0, q = 0;
        bool ns = nulls & 1, nr = nulls & 2, nd = nulls & 4;     // sdispls, recvcnts, rdispls omitted
        auto layout = [&](std::vector<int> &d, std::vector<int> &cn, bool dense) { int p = 0; if (dense || gap == 0) for (int i = 0; i < n; i++) d[i] = p, p += cn[i]; else if (gap == 1) for (int i = 0; i < n; i++) d[i] = p + 1, p += cn[i] + 2; else for (int i = n; i-- > 0;) d[i] = p, p += cn[i]; return p; };
        s = layout(sd, sc, ns); q = layout(rd, rc, nd); str sb((s + 1) * es, '\x11'), want((q + 1) * es, '\x22'); for (int j = 0; j < n; j++) for (int k = 0; k < sc[j]; k++) sb.replace((sd[j] + k) * es, es, cell(r, j, k)); for (int i = 0; i < n; i++) for (int k = 0; k < rc[i]; k++) want.replace((rd[i] + k) * es, es, cell(i, r, k));
        Buf S(sb), R(str(want.size(), '\x22')); for (auto *v : {&sc, &sd}) for (int &x : *v) x *= us; for (auto *v : {&rc, &rd}) for (int &x : *v) x *= ur; std::vector<int> sc0 = sc, sd0 = sd, rc0 = rc, rd0 = rd;
        int tot = 0; for (int x : rc) tot += x;
        if (gap == 0) { int got = l.MPIU_Alltoallv(S.p, sc.data(), ns ? NULL : sd.data(), ts, NULL, nr ? NULL : rc.data(), nd ? NULL : rd.data(), tr, MPI_COMM_WORLD, (MPIU_AlltoallvSparsePolicy)pol); MC_CHECK(got == tot, "rank %d would receive %d items, is told %d", r, tot, got); }
        int rt = l.MPIU_Alltoallv(S.p, sc.data(), ns ? NULL : sd.data(), ts, R.p, nr ? NULL : rc.data(), nd ? NULL : rd.data(), tr, MPI_COMM_WORLD, (MPIU_AlltoallvSparsePolicy)pol);
        MC_CHECK(rt == 0, "rank %d: returns %d", r, rt); MC_CHECK(S.s() == sb && sc == sc0 && sd == sd0 && rc == rc0 && rd == rd0, "rank %d: the arguments changed", r); MC_CHECK(R.s() == want, "policy %d: rank %d received %s, expected %s", pol, r, hex(R.s()).c_str(), hex(want).c_str()); got[r] = R.s();
        if (three) MPI_Type_free(&t); });
    uint64_t h = n; for (auto &g : got) h = mc_hash_str(g, h); mc_state(h); mc_transitions(n);
}
static void gather() {
    int n = 1 + mc_choose(mc_thorough() ? 6 : 5, "ranks"), root = mc_choose(n, "root"), es = mc_pick(std::vector<int>{1, 4, 7}), own = mc_choose(2, "buffer given"), sync = mc_choose(2); mc_split(); std::vector<int> c(n); int tot = 0; for (auto &x : c) tot += x = mc_choose(n >= 5 ? 3 : 4); int tots = mc_choose(2);
    auto cell = [&](int i, int k) { str s(es, 0); for (int b = 0; b < es; b++) s[b] = pat(i + 1, k, b); return s; }; str all; std::vector<str> part(n); for (int i = 0; i < n; i++) { for (int k = 0; k < c[i]; k++) part[i] += cell(i, k); all += part[i]; }
    fmpi_sync = sync;
    ranks(n, [&](int r, Lib &l) { int tr = -5; Buf S(part[r]), R(str(r == root ? tot * es : 0, '\x22')); char *out = (char *)l.MPIU_Gather(MPI_COMM_WORLD, root, S.p, own ? R.p : NULL, c[r], es, tots ? &tr : NULL); if (own) MC_CHECK(out == R.p, "rank %d: the buffer is not the one given", r);
        if (r == root) { if (tot) MC_CHECK(str(out, tot * es) == all, "the root gathers %s, sent were %s", hex(str(out, tot * es)).c_str(), hex(all).c_str()); if (tots) MC_CHECK(tr == tot, "the root is told %d elements, it gets %d", tr, tot); } else if (tots) MC_CHECK(tr == 0, "rank %d is told it received %d elements", r, tr);
        MC_CHECK(S.s() == part[r], "the data sent changed"); if (!own && out) free(out);
        int ts = -5; Buf A(r == root ? all : str()), Q(str(part[r].size(), '\x22')); out = (char *)l.MPIU_Scatter(MPI_COMM_WORLD, root, A.p, own ? Q.p : NULL, c[r], es, tots ? &ts : NULL); if (own) MC_CHECK(out == Q.p, "rank %d: the buffer is not the one given", r);
        MC_CHECK(str(out ? out : "", part[r].size()) == part[r], "rank %d receives %s, its part is %s", r, hex(str(out, part[r].size())).c_str(), hex(part[r]).c_str()); if (tots) MC_CHECK(ts == (r == root ? tot : 0), "rank %d is told that %d elements were sent", r, ts); if (!own && out) free(out); });
    mc_state(mc_hash_str(all, n * 8 + root)); mc_transitions(2 * n);
}
template <class T> static void getloc_t(MPI_Datatype t, const std::vector<T> &vals) {
    int n = 1 + mc_choose(5, "ranks"), mx = mc_choose(2); fmpi_sync = mc_choose(2); mc_split(); std::vector<T> v(n); for (auto &x : v) x = vals[mc_choose(vals.size())]; int want = 0; for (int i = 1; i < n; i++) if (mx ? v[i] > v[want] : v[i] < v[want]) want = i;
    ranks(n, [&](int r, Lib &l) { T x = v[r]; int g = l.MPIU_GetLoc(&x, t, mx ? MPI_MAX : MPI_MIN, MPI_COMM_WORLD); MC_CHECK(g == want, "rank %d: the %s is said to be on rank %d, it is on %d", r, mx ? "maximum" : "minimum", g, want); MC_CHECK(x == v[r], "the value changed"); }); mc_state(mc_hash(v.data(), n * sizeof(T), n * 2 + mx)); mc_transitions(n);
}
static void getloc() { switch (mc_choose(3, "type")) { case 0: return getloc_t<int>(MPI_INT, {5, -3, 7}); case 1: return getloc_t<long>(MPI_LONG, {1l << 40, -(1l << 40), 3, 4}); default: return getloc_t<double>(MPI_DOUBLE, {0.5, -2e30, 7}); } }
static void segmenter() {
    int n = 1 + mc_choose(mc_thorough() ? 6 : 5, "ranks"), ng = 1 + mc_choose(n + 2, "groups"); size_t avg = mc_pick(std::vector<size_t>{0, 1, 2, 3, 5, 1000}, "size"); bool two = mc_choose(2, "second sizes"); fmpi_sync = mc_choose(2); mc_split(); std::vector<size_t> v(n), w(n); size_t tot = 0; for (int i = 0; i < n; i++) { tot += v[i] = mc_pick(n == 5 && !mc_thorough() ? std::vector<size_t>{0, 1, 4} : n < 6 ? std::vector<size_t>{0, 1, 2, 5} : std::vector<size_t>{0, 1, 3}); w[i] = two ? std::vector<size_t>{3, 0, 1, 2}[(v[i] + i) % 4] : v[i]; }
    std::vector<MPIU_Segmenter> s(n); std::vector<std::vector<int>> gm(n), sm(n);
    ranks(n, [&](int r, Lib &l) { std::vector<size_t> sz(n), sz2 = w; size_t off = 0, t = l.MPIU_Segmenter_collect_sizes(v[r], sz.data(), &off, MPI_COMM_WORLD); size_t o = 0; for (int i = 0; i < r; i++) o += v[i]; MC_CHECK(t == tot && off == o && sz == v, "rank %d: total %zu, offset %zu; they are %zu, %zu", r, t, off, tot, o);
        l.MPIU_Segmenter_init(&s[r], sz.data(), two ? sz2.data() : NULL, avg, ng, MPI_COMM_WORLD);
        auto members = [&](MPI_Comm c) { int k; MPI_Comm_size(c, &k); std::vector<int> m(k); MPI_Allgather(&r, 1, MPI_INT, m.data(), 1, MPI_INT, c); return m; }; gm[r] = members(s[r].Group); sm[r] = members(s[r].Segment);
        l.MPIU_Segmenter_destroy(&s[r]); });
    // every rank with data: in a segment of consecutive such ranks, in a group of consecutive segments
    std::vector<int> d; for (int i = 0; i < n; i++) if (v[i] || w[i]) d.push_back(i); std::set<int> groups;
    for (size_t k = 0; k < d.size(); k++) { int r = d[k]; std::vector<int> seg, grp; for (int i : d) { if (s[i].ThisSegment == s[r].ThisSegment) seg.push_back(i); if (s[i].GroupID == s[r].GroupID) grp.push_back(i); } groups.insert(s[r].GroupID);
        MC_CHECK(sm[r] == seg, "rank %d: its segment communicator has %zu ranks, its segment %zu", r, sm[r].size(), seg.size()); MC_CHECK(gm[r] == grp, "rank %d: its group communicator has %zu ranks, its group %zu", r, gm[r].size(), grp.size());
        if (k) { int p = d[k - 1]; MC_CHECK(s[r].ThisSegment >= s[p].ThisSegment && s[r].GroupID >= s[p].GroupID, "segments or groups are not consecutive at rank %d", r); if (s[r].GroupID != s[p].GroupID) MC_CHECK(s[r].ThisSegment != s[p].ThisSegment, "segment %d is in two groups", s[r].ThisSegment); }
        int lo = s[r].ThisSegment, hi = lo; for (int i : grp) { lo = std::min(lo, s[i].ThisSegment); hi = std::max(hi, s[i].ThisSegment); } MC_CHECK(s[r].segment_start == lo && s[r].segment_end == hi + 1, "rank %d: its group has segments %d to %d, it is told %d to %d", r, lo, hi, s[r].segment_start, s[r].segment_end - 1);
        size_t a = 0, b = 0; for (size_t i = 0; i + 1 < seg.size(); i++) { a += v[seg[i]]; b += w[seg[i]]; MC_CHECK(a <= avg && b <= avg, "a segment of %zu (%zu) before rank %d goes on although at most %zu is asked for", a, b, seg[i + 1], avg); }
        int gl = 0, sl = 0; for (size_t i = 0; i < grp.size(); i++) if (v[grp[i]] > v[grp[gl]]) gl = i; for (size_t i = 0; i < seg.size(); i++) if (v[seg[i]] < v[seg[sl]]) sl = i;
        MC_CHECK(s[r].group_leader_rank == gl, "rank %d: the leader of its group is %d, the most data is on %d", r, s[r].group_leader_rank, gl); MC_CHECK(s[r].segment_leader_rank == sl, "rank %d: the leader of its segment is %d, the least data is on %d", r, s[r].segment_leader_rank, sl); MC_CHECK(!!s[r].is_group_leader == (grp[gl] == r), "rank %d: is_group_leader is %d", r, s[r].is_group_leader); }
    MC_CHECK((int)groups.size() <= ng, "%zu groups, at most %d were asked for", groups.size(), ng);
    uint64_t h = mc_hash(v.data(), n * 8, n + avg * 10 + ng * 100000); for (auto &x : s) h = mc_hash(&x.ThisSegment, 4, h + x.GroupID); mc_state(h); mc_transitions(n);
}
static void run() { switch (mc_choose(4)) { case 0: return segmenter(); case 1: return alltoall(); case 2: return gather(); default: return getloc(); } }
int main(int c, char **v) { procs_load(v[0], 6); McOpts o; o.property = "C16"; o.run = run; o.worker_init = sched_fs; mc_before_exec = mcfs_reset; return mc_main(c, v, o); }
