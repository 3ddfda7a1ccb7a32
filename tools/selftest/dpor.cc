// engine self-test: the reduced exploration reaches exactly the outcomes of the full one
#include "../../mc/coro.h"
#include "../../mc/mc.h"
static McOp op(int v, bool w) { McOp o; o.acc.push_back({(uint64_t)v + 1, 0, 1, w}); return o; }
static void run() {
    int kind = mc_choose(2); int n = kind ? 2 : 3, len = kind ? 3 : 2; std::vector<int> prog; int pick = kind ? 6 : 6; (void)pick;
    // operations: read x, write x, read y, write y, wait until x written (blocking), send/none
    uint64_t h = 7; for (int p = 0; p < n; p++) for (int k = 0; k < len; k++) { int o = (p == n - 1 || k == 0) ? mc_choose(5) : (int)((h >> 7) % 5); prog.push_back(o); h = mc_hash(&o, 4, h); }
    mc_split(); int var[2] = {0, 0}; std::vector<int> seen(n, 0);
    bool dead = false; int arrived = 0;
    sched_run(n, [&](int p) { for (int k = 0; k < len; k++) { int o = prog[p * len + k], v = o / 2 & 1; if (o == 4) { if (p == 0) continue; sched_wait("flag", [&]() { return arrived > 0; }, [=]() { McOp o = op(2, false); o.acc.push_back(op(0, false).acc[0]); return o; }); seen[p] = seen[p] * 31 + var[0]; continue; } bool w = o & 1; sched_point([=]() { return op(v, w); }); if (w) var[v] = var[v] * 7 + p * 13 + k + 1; else seen[p] = seen[p] * 31 + var[v]; }
        if (p == 0) { sched_point([=]() { return op(2, true); }); arrived++; } });
    uint64_t s = h; s = mc_hash(var, sizeof var, s); s = mc_hash(seen.data(), n * sizeof(int), s); mc_state(s);
}
int main(int c, char **v) { McOpts o; o.property = "selftest"; o.run = run; return mc_main(c, v, o); }
