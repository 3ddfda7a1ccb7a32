#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <fcntl.h>
#include <dirent.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <atomic>
#include <algorithm>
#include <unordered_set>

#define MAXPATH 60000
#define MAXPREFIX (1 << 22)
#define MAXW 16
#define STBITS 22

struct Node {
    int kind;            // 0 choose, 1 deviate, 2 sched
    int chosen, n;
    const char *tag;
    // sched
    uint32_t enabled = 0, done = 0, backtrack = 0, sleep = 0;
    std::vector<McOp> ops;
    std::vector<int> clk;     // clock vector of the transition executed from here (after)
    std::vector<int> clkproc; // clocks of every process before (nproc*nproc), lazily
};

struct Shared {
    std::atomic<uint32_t> nprefix_known;
    std::atomic<uint32_t> stop;
    std::atomic<uint8_t> claimed[MAXPREFIX];
    std::atomic<uint64_t> states[1 << STBITS];
    struct W {
        std::atomic<uint64_t> execs, skipped, transitions, nstates, distinct, maxdepth, redundant, maxsplit;
        std::atomic<uint64_t> counters[16];
        std::atomic<uint64_t> seq;      // progress
        std::atomic<uint32_t> state;    // 0 running 1 finished 2 violation 3 budget 4 engine error
        uint32_t pathlen; uint16_t path[MAXPATH];
        char msg[8192]; char trace[65536];
    } w[MAXW];
    uint64_t sample_n; char sample[3][4096];
    std::atomic<uint32_t> nsample;
};
static Shared *S;
static Shared::W *me;
static int my_id;
static std::vector<Node> path;
static size_t pos;
static int devs_used, dev_bound;
static size_t split_len; static bool have_claim;
static uint32_t prefix_no;
static bool replaying; static std::vector<uint16_t> replay_choices;
static bool engine_active, freerun, split_called;
static std::string trace;
static McOpts O;
static std::string tier = "quick", outfile, replaydir = "/tmp", scratch_base;
static double budget = 600; static int jobs = 8;
static double t0;
const char *mc_scratch;
void (*mc_before_exec)(); void (*mc_after_exec)();
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
bool mc_replaying() { return replaying; }
bool mc_thorough() { return tier == "thorough"; }
struct McSkip {};

uint64_t mc_hash(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = (const unsigned char *)p;
    while (n >= 8) { uint64_t x; memcpy(&x, c, 8); h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; c += 8; n -= 8; }
    uint64_t x = n + 1; for (size_t i = 0; i < n; i++) x = x << 8 | c[i];
    h ^= x; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29; return h;
}
[[noreturn]] static void engine_error(const char *m) {
    if (me) { snprintf(me->msg, sizeof me->msg, "%s", m); me->state = 4; }
    fprintf(stderr, "engine error: %s\n", m); _exit(70);
}
static void publish() {
    size_t n = std::min<size_t>(path.size(), MAXPATH);
    for (size_t i = 0; i < n; i++) me->path[i] = path[i].chosen;
    me->pathlen = n;
}
static int choose(int n, const char *tag, int kind) {
    if (n <= 0) engine_error("choice among nothing");
    if (!engine_active) engine_error("choice outside an execution");
    if (n == 1 || freerun) return 0;
    if (kind == 1 && devs_used >= dev_bound) return 0;
    if (pos < path.size()) {
        Node &x = path[pos];
        if (x.n != n || x.kind != kind) {
            char b[256]; snprintf(b, sizeof b, "nondeterministic harness at choice %zu: n %d/%d tag %s/%s", pos, x.n, n, x.tag, tag); engine_error(b); }
    } else {
        if (path.size() >= MAXPATH) engine_error("execution too long");
        Node x{}; x.kind = kind; x.n = n; x.tag = tag; x.chosen = 0;
        if (replaying && pos < replay_choices.size()) x.chosen = replay_choices[pos];
        path.push_back(x);
    }
    int c = path[pos].chosen; me->path[pos] = c; me->pathlen = pos + 1; pos++;
    if (kind == 1 && c) devs_used++;
    return c;
}
int mc_choose(int n, const char *tag) { return choose(n, tag, 0); }
int mc_deviate(int n, const char *tag) { return choose(n, tag, 1); }
bool mc_can_deviate() { return devs_used < dev_bound; }

void mc_split() {
    split_called = true;
    if (replaying || have_claim) return;
    uint32_t k = prefix_no++;
    if (k >= MAXPREFIX) engine_error("too many prefixes");
    uint8_t z = 0;
    split_len = pos;
    if (k + 1 > me->maxsplit) me->maxsplit = k + 1;
    if (!S->claimed[k].compare_exchange_strong(z, (uint8_t)(my_id + 1))) throw McSkip();
    have_claim = true;
}

// ---------------------------------------------------------------- DPOR
static int NP; static std::vector<std::vector<int>> clk; // per process vector clocks; component = index+1 of its last sched node in path
static std::vector<size_t> schedidx;                     // path indices of sched nodes executed so far, with procs
bool mc_dependent(const McOp &a, const McOp &b) {
    for (auto &x : a.acc) for (auto &y : b.acc)
        if (x.obj == y.obj && (x.w || y.w) && x.lo < y.hi && y.lo < x.hi) return true;
    return false;
}
static int lastrun; static bool full_exploration;
static void dpor_reset() { lastrun = -1; freerun = false; clk.clear(); NP = 0; schedidx.clear(); }
static void need_clk(int n) { if ((int)clk.size() < n) { clk.resize(n); for (auto &c : clk) c.resize(n, -1); NP = n; } }
void mc_hb_edge(int f, int t) { need_clk(std::max(f, t) + 1); for (int i = 0; i < NP; i++) clk[t][i] = std::max(clk[t][i], clk[f][i]); }
void mc_hb_export(int p, std::vector<int> &c) { need_clk(p + 1); c.resize(NP, -1); for (int i = 0; i < NP; i++) c[i] = std::max(c[i], clk[p][i]); }
void mc_hb_import(int p, const std::vector<int> &c) { need_clk(p + 1); for (int i = 0; i < NP && i < (int)c.size(); i++) clk[p][i] = std::max(clk[p][i], c[i]); }

int mc_schedule(uint32_t enabled, int nproc, const std::vector<McOp> &ops) {
    need_clk(nproc);
    if (!engine_active) engine_error("schedule outside an execution");
    if (freerun) {
        if (lastrun >= 0 && (enabled >> lastrun & 1)) return lastrun;
        return lastrun = __builtin_ctz(enabled);
    }
    // race detection (source-DPOR): for every process' next op, every earlier transition it races with
    for (int p = 0; p < nproc && !full_exploration; p++) {
        if (ops[p].acc.empty()) continue;
        std::vector<int> c = clk[p];
        for (int k = (int)schedidx.size(); k-- > 0;) {
            Node &x = path[schedidx[k]];
            int q = x.chosen;
            if (q == p || k <= c[q]) continue;            // happens before
            if (!mc_dependent(x.ops[q], ops[p])) continue;
            if (schedidx[k] < split_len && !replaying) engine_error("schedule inside the split prefix");
            for (int i = 0; i < NP && i < (int)x.clk.size(); i++) c[i] = std::max(c[i], x.clk[i]);
            // v: what followed it without depending on it, then this op; some process that can start v must go first there
            uint32_t init = 0, seen = 0; std::vector<int> v;
            for (int j = k + 1; j < (int)schedidx.size(); j++) {
                Node &y = path[schedidx[j]]; int r = y.chosen; if (y.clk[q] >= k) continue;
                if (!(seen >> r & 1)) { bool first = true; for (int w : v) if (y.clk[path[schedidx[w]].chosen] >= w) { first = false; break; } if (first) init |= 1u << r; }
                seen |= 1u << r; v.push_back(j);
            }
            if (!(seen >> p & 1)) { bool first = true; for (int w : v) { Node &y = path[schedidx[w]]; if (clk[p][y.chosen] >= w || mc_dependent(y.ops[y.chosen], ops[p])) { first = false; break; } } if (first) init |= 1u << p; }
            init &= x.enabled;
            if (!init) x.backtrack |= x.enabled;
            else if (!(init & (x.backtrack | x.sleep))) x.backtrack |= init >> p & 1 ? 1u << p : init & -init;
        }
    }
    Node *x;
    uint32_t sleep = 0;
    if (!schedidx.empty() && !full_exploration) {
        Node &pr = path[schedidx.back()];
        uint32_t cand = (pr.sleep | (pr.done & ~(1u << pr.chosen))) & pr.enabled;
        for (int p = 0; p < nproc; p++)
            if ((cand >> p & 1) && p != pr.chosen && (enabled >> p & 1) && !mc_dependent(pr.ops[p], pr.ops[pr.chosen])) sleep |= 1u << p;
    }
    if (pos < path.size()) {
        x = &path[pos];
        if (x->kind != 2 || x->enabled != enabled) { char b[200]; snprintf(b, sizeof b, "nondeterministic schedule at %zu: enabled %x/%x kind %d", pos, x->enabled, enabled, x->kind); engine_error(b); }
        x->sleep = sleep;
    } else {
        Node n{}; n.kind = 2; n.tag = "sched"; n.enabled = enabled; n.sleep = sleep; n.n = nproc;
        uint32_t awake = enabled & ~sleep;
        int c = -1;
        if (replaying && pos < replay_choices.size()) c = replay_choices[pos];
        else {
            // keep running the process that ran last if possible
            if (!schedidx.empty() && (awake >> path[schedidx.back()].chosen & 1)) c = path[schedidx.back()].chosen;
            else for (int p = 0; p < nproc; p++) if (awake >> p & 1) { c = p; break; }
        }
        if (c < 0) {   // every enabled process is asleep: the rest of this execution is redundant; just let it finish
            me->redundant++; freerun = true; lastrun = schedidx.empty() ? -1 : path[schedidx.back()].chosen;
            if (lastrun >= 0 && (enabled >> lastrun & 1)) return lastrun;
            return lastrun = __builtin_ctz(enabled); }
        n.chosen = c; n.backtrack = full_exploration ? enabled : 1u << c; n.done = 1u << c; n.ops = ops;
        if (path.size() >= MAXPATH) engine_error("execution too long");
        path.push_back(n); x = &path[pos];
    }
    me->path[pos] = x->chosen; me->pathlen = pos + 1;
    if (!(enabled >> x->chosen & 1)) engine_error("replayed schedule not enabled");
    int p = x->chosen;
    x->ops = ops;
    // clocks: join with dependent predecessors
    int k = (int)schedidx.size();
    for (int j = k - 1; j >= 0; j--) {
        Node &y = path[schedidx[j]]; int q = y.chosen;
        if (q == p || j <= clk[p][q]) continue;
        if (mc_dependent(y.ops[q], ops[p])) for (int i = 0; i < NP; i++) clk[p][i] = std::max(clk[p][i], y.clk.size() > (size_t)i ? y.clk[i] : -1);
    }
    clk[p][p] = k;
    x->clk = clk[p];
    schedidx.push_back(pos);
    pos++;
    return p;
}

// advance to the next unexplored choice vector; false when done
static bool advance() {
    while (!path.empty()) {
        Node &x = path.back();
        bool ok = false;
        if (x.kind == 0) ok = x.chosen + 1 < x.n;
        else if (x.kind == 1) {
            int used = 0; for (size_t i = 0; i + 1 < path.size(); i++) if (path[i].kind == 1 && path[i].chosen) used++;
            ok = x.chosen + 1 < x.n && used < dev_bound;
        } else {
            uint32_t todo = x.backtrack & ~x.done & ~x.sleep & x.enabled;
            if (todo) { int p = __builtin_ctz(todo); x.chosen = p; x.done |= 1u << p; ok = true;
                if (have_claim && path.size() <= split_len) engine_error("split inside schedule");
                return true; }
        }
        if (ok) { x.chosen++; if (have_claim && path.size() <= split_len) { have_claim = false; } return true; }
        path.pop_back();
    }
    return false;
}

// ---------------------------------------------------------------- reporting
void mc_note(const char *fmt, ...) {
    char b[2048]; va_list v; va_start(v, fmt); vsnprintf(b, sizeof b, fmt, v); va_end(v);
    if (trace.size() < 60000) { trace += b; trace += '\n'; }
    if (replaying) fprintf(stderr, "  | %s\n", b);
}
void mc_fail(const char *fmt, ...) {
    char b[8000]; va_list v; va_start(v, fmt); vsnprintf(b, sizeof b, fmt, v); va_end(v);
    publish();
    snprintf(me->msg, sizeof me->msg, "%s", b);
    snprintf(me->trace, sizeof me->trace, "%s", trace.c_str());
    me->state = 2;
    if (replaying) fprintf(stderr, "FAIL: %s\n", b);
    _exit(44);
}
void mc_transitions(uint64_t n) { me->transitions.fetch_add(n, std::memory_order_relaxed); }
void mc_count(int k, uint64_t n) { me->counters[k].fetch_add(n, std::memory_order_relaxed); }
void mc_counter_name(int k, const char *nm) { O.counters[k] = nm; }
void mc_state(uint64_t h) {
    me->nstates.fetch_add(1, std::memory_order_relaxed);
    if (!h) h = 1;
    uint64_t i = h >> (64 - STBITS);
    for (int t = 0; t < 64; t++, i = (i + 1) & ((1 << STBITS) - 1)) {
        uint64_t v = S->states[i].load(std::memory_order_relaxed);
        if (v == h) return;
        if (v == 0) { if (S->states[i].compare_exchange_strong(v, h)) { me->distinct++; return; } if (v == h) return; }
    }
}
// ---------------------------------------------------------------- globals of tracked modules
struct Seg { char *a; size_t n; std::vector<char> copy; };
static std::vector<Seg> segs;
static int track_cb(struct dl_phdr_info *i, size_t, void *d) {
    if (!i->dlpi_name || !strstr(i->dlpi_name, (const char *)d)) return 0;
    uintptr_t rlo = 0, rhi = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
        rlo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; rhi = (rlo + i->dlpi_phdr[k].p_memsz + 4095) & ~4095ull; rlo &= ~4095ull; }
    for (int k = 0; k < i->dlpi_phnum; k++) {
        auto &ph = i->dlpi_phdr[k];
        if (ph.p_type != PT_LOAD || !(ph.p_flags & PF_W)) continue;
        uintptr_t lo = i->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
        if (rhi > lo && rlo <= lo) lo = std::min(rhi, hi);
        if (lo >= hi) continue;
        segs.push_back({(char *)lo, hi - lo, {}});
    }
    return 0;
}
__attribute__((no_sanitize("address"))) static void rawcopy(char *d, const char *s, size_t n) {
    long *D = (long *)d; const long *Sx = (const long *)s; size_t k = n / 8;
    for (size_t i = 0; i < k; i++) if (D[i] != Sx[i]) D[i] = Sx[i];
    for (size_t i = k * 8; i < n; i++) d[i] = s[i];
}
void mc_track_module(const char *substr) {
    size_t b = segs.size();
    dl_iterate_phdr(track_cb, (void *)substr);
    for (size_t i = b; i < segs.size(); i++) { segs[i].copy.resize(segs[i].n); rawcopy(segs[i].copy.data(), segs[i].a, segs[i].n); }
}
static void restore_globals() { for (auto &s : segs) rawcopy(s.a, s.copy.data(), s.n); }

void mc_wipe(const char *dir) {
    DIR *d = opendir(dir); if (!d) return;
    struct dirent *e;
    int fd = dirfd(d);
    std::vector<std::string> sub;
    while ((e = readdir(d))) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        if (unlinkat(fd, e->d_name, 0) != 0) sub.push_back(e->d_name);
    }
    for (auto &n : sub) { std::string p = std::string(dir) + "/" + n; mc_wipe(p.c_str()); unlinkat(fd, n.c_str(), AT_REMOVEDIR); }
    closedir(d);
}
// ---------------------------------------------------------------- one execution
static void one() {
    pos = 0; devs_used = 0; trace.clear(); dpor_reset();
    restore_globals();
    me->seq++;
    if (mc_before_exec) mc_before_exec();
    engine_active = true;
    bool skipped = false;
    try { O.run(); } catch (McSkip &) { skipped = true; }
    engine_active = false;
    if (mc_after_exec) mc_after_exec();
    if (skipped) { me->skipped++; return; }
    if (pos < path.size()) { engine_error("nondeterministic harness: execution shorter than its prefix"); }
    me->execs++;
    if (path.size() > me->maxdepth) me->maxdepth = path.size();
    if (!trace.empty() && my_id == 0) {
        uint64_t k = me->execs;
        if (k == 1 || k == 500 || k == 5000) { uint32_t i = S->nsample.fetch_add(1); if (i < 3) {
            std::string s = "choices ["; for (auto &n : path) s += std::to_string(n.chosen) + ","; s += "] " + trace;
            snprintf(S->sample[i], sizeof S->sample[i], "%s", s.c_str()); } }
    }
}
static void worker(int id) {
    my_id = id; me = &S->w[id];
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    static std::string sc; sc = scratch_base + "/w" + std::to_string(id);
    mkdir(sc.c_str(), 0755); mc_wipe(sc.c_str()); if (chdir(sc.c_str())) engine_error("chdir");
    mc_scratch = sc.c_str();
    path.clear(); prefix_no = 0; have_claim = false; dev_bound = O.deviations;
    if (O.worker_init) O.worker_init();
    if (replaying) { one(); _exit(0); }
    uint64_t k = 0;
    for (;;) {
        one();
        if (!split_called && my_id != 0) break;   // harness without mc_split: only worker 0
        if (!advance()) break;
        if ((++k & 15) == 0 && (S->stop || now() - t0 > budget)) { me->state = 3; _exit(45); }
    }
    me->state = 1;
    _exit(0);
}
static std::string jesc(const char *s) {
    std::string r; for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r;
}
static pid_t spawn(int id, const char *log) {
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        if (log) { int fd = open(log, O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2(fd, 2); dup2(fd, 1); close(fd); }
        worker(id); _exit(0);
    }
    return p;
}
static std::string slurp_tail(const char *f, size_t max) {
    FILE *fp = fopen(f, "r"); if (!fp) return ""; std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n); fclose(fp);
    if (s.size() > max) s = s.substr(0, max);
    return s;
}
int mc_main(int argc, char **argv, McOpts o) {
    O = o; t0 = now();
    const char *replayfile = nullptr;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--out") outfile = argv[i + 1]; else if (a == "--replay-dir") replaydir = argv[i + 1];
        else if (a == "--jobs") jobs = atoi(argv[i + 1]); else if (a == "--budget") budget = atof(argv[i + 1]);
        else if (a == "--tier") tier = argv[i + 1]; else if (a == "--replay") replayfile = argv[i + 1];
        else if (a == "--full") full_exploration = atoi(argv[i + 1]); else if (a == "--dev") O.deviations = atoi(argv[i + 1]);
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (jobs > MAXW - 1) jobs = MAXW - 1;
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    char sb[64]; snprintf(sb, sizeof sb, "/dev/shm/mc.%d", getpid()); scratch_base = sb;
    mkdir(sb, 0755);
    auto cleanup = [&]() { mc_wipe(sb); rmdir(sb); };
    if (replayfile) {
        FILE *f = fopen(replayfile, "r"); if (!f) { perror(replayfile); return 2; }
        char line[1 << 16]; while (fgets(line, sizeof line, f)) if (!strncmp(line, "deviations:", 11)) O.deviations = atoi(line + 11); else if (!strncmp(line, "choices:", 8)) { char *p = line + 8, *e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; replay_choices.push_back(v); p = e; } }
        fclose(f); replaying = true;
        pid_t p = spawn(0, nullptr); int st; waitpid(p, &st, 0); cleanup();
        bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        printf("replay: %s\n", bad ? "violation reproduced" : "no violation"); return bad ? 1 : 0;
    }
    std::vector<pid_t> pids(jobs); std::vector<std::string> logs(jobs);
    std::vector<uint64_t> lastseq(jobs, 0); std::vector<double> lastt(jobs, now());
    for (int i = 0; i < jobs; i++) { logs[i] = scratch_base + "/log" + std::to_string(i); pids[i] = spawn(i, logs[i].c_str()); }
    double stop_t = 0; int alive = jobs, bad = -1; bool hang = false, error = false; std::string why;
    while (alive) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p <= 0) {
            struct timespec ts = {0, 20000000}; nanosleep(&ts, nullptr);
            if (S->stop && !stop_t) stop_t = now();
            if (stop_t && now() - stop_t > 2) { for (int k = 0; k < jobs; k++) if (pids[k] > 0) kill(pids[k], SIGKILL); }
            for (int i = 0; i < jobs; i++) if (pids[i] > 0) {
                uint64_t s = S->w[i].seq; double t = now();
                if (s != lastseq[i]) { lastseq[i] = s; lastt[i] = t; }
                else if (t - lastt[i] > O.hang_s && bad < 0) { bad = i; hang = true; why = "no progress: the execution hangs"; S->stop = 1;
                    for (int k = 0; k < jobs; k++) if (pids[k] > 0) kill(pids[k], SIGKILL); }
            }
            continue;
        }
        for (int i = 0; i < jobs; i++) if (pids[i] == p) {
            pids[i] = 0; alive--;
            uint32_t s = S->w[i].state;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s == 1) break;
            if (s == 3) break;
            if (hang) break;
            if (s == 4 || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) { if (bad < 0) { error = true; why = s == 4 ? S->w[i].msg : "worker killed"; bad = i; } S->stop = 1; break; }
            if (bad < 0) {
                bad = i; S->stop = 1;
                if (s == 2) why = S->w[i].msg;
                else { char b[200]; if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crash: signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "crash: exit status %d", WEXITSTATUS(st)); why = b; }
            }
        }
    }
    double wall = now() - t0;
    int rc = 0; std::string replaypath;
    if (bad >= 0) {
        auto &w = S->w[bad];
        std::string firstlog = slurp_tail(logs[bad].c_str(), 6000);
        std::vector<uint16_t> ch(w.path, w.path + std::min<uint32_t>(w.pathlen, MAXPATH));
        std::string tr = w.state == 2 ? w.trace : "";
        bool timedout = false, repro = false; std::string log2;
        {
            // replay in a fresh process
            replaying = true; replay_choices = ch; 
            std::string lg = scratch_base + "/logr"; int id = MAXW - 1; S->w[id].state = 0;
            pid_t p = spawn(id, lg.c_str()); double ts = now(); int st = 0;
            for (;;) { pid_t q = waitpid(p, &st, WNOHANG); if (q == p) break; if (now() - ts > O.hang_s) { kill(p, SIGKILL); waitpid(p, &st, 0); timedout = true; break; } struct timespec t = {0, 5000000}; nanosleep(&t, nullptr); }
            repro = timedout || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
            if (S->w[id].state == 2) why = S->w[id].msg;
            if (S->w[id].state == 4) why += std::string(" [replay: ") + S->w[id].msg + "]";
            log2 = slurp_tail(lg.c_str(), 20000);
        }
        if (hang && !repro) { error = true; why = "a worker made no progress but its execution finishes when replayed"; }
        if (error) { fprintf(stderr, "ENGINE ERROR: %s\n%s\n", why.c_str(), firstlog.c_str()); rc = 2; }
        else {
            mkdir(replaydir.c_str(), 0755);
            replaypath = replaydir + "/" + O.property + ".replay";
            FILE *f = fopen(replaypath.c_str(), "w");
            if (f) {
                fprintf(f, "property: %s\nwhat: %s\nreproduced: %s\ndeviations: %d\nchoices:", O.property, why.c_str(), repro ? "yes" : "no", O.deviations);
                for (auto c : ch) fprintf(f, " %d", c);
                fprintf(f, "\n--- trace\n%s\n--- replay output\n%s\n--- first output\n%s\n", tr.c_str(), log2.c_str(), firstlog.c_str()); fclose(f);
            }
            fprintf(stderr, "%s: %s\n%s\n", O.property, why.c_str(), (log2.size() ? log2 : firstlog).substr(0, 5000).c_str());
            printf("VIOLATION property=%s replay=%s\n", O.property, replaypath.c_str());
            rc = 1;
        }
    }
    uint64_t ex = 0, tr = 0, ns = 0, ds = 0, md = 0, red = 0, pf = 0, cnt[16] = {}; bool full = true;
    for (int i = 0; i < jobs; i++) { auto &w = S->w[i]; ex += w.execs; tr += w.transitions; ns += w.nstates; ds += w.distinct; red += w.redundant; md = std::max<uint64_t>(md, w.maxdepth); pf = std::max<uint64_t>(pf, w.maxsplit);
        for (int k = 0; k < 16; k++) cnt[k] += w.counters[k];
        if (w.state != 1) full = false; }
    if (!outfile.empty()) {
        FILE *f = fopen(outfile.c_str(), "w");
        fprintf(f, "{\"executions\": %lu, \"transitions\": %lu, \"states\": %lu, \"states_visited\": %lu, \"redundant_schedules_pruned\": %lu, \"max_choice_depth\": %lu, \"configurations\": %lu, \"deviation_bound\": %d, \"exhaustive\": %s, \"rc\": %d, \"wall_s\": %.2f",
            ex, tr, ds, ns, red, md, pf, O.deviations, full && rc == 0 ? "true" : "false", rc, wall);
        for (int k = 0; k < 16; k++) if (O.counters[k]) fprintf(f, ", \"%s\": %lu", O.counters[k], cnt[k]);
        fprintf(f, ", \"violation\": \"%s\"", jesc(rc == 1 ? why.c_str() : "").c_str());
        fprintf(f, ", \"samples\": ["); for (uint32_t i = 0; i < S->nsample && i < 3; i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(S->sample[i]).c_str()); fprintf(f, "]}\n");
        fclose(f);
    }
    fprintf(stderr, "%s: executions %lu transitions %lu states %lu configs %lu redundant %lu depth %lu %s rc %d %.1fs\n", O.property, ex, tr, ds, pf, red, md, full ? "complete" : "TRUNCATED", rc, wall);
    cleanup();
    return rc;
}
