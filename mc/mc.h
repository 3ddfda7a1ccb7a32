// Stateless explorer: enumerates all choice vectors of a deterministic harness.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>

// ---- choices -------------------------------------------------------------
int  mc_choose(int n, const char *tag = "");   // free choice 0..n-1
int  mc_deviate(int n, const char *tag = "");  // 0 is the default; others cost one deviation
bool mc_can_deviate();                         // deviation budget left?
void mc_split();                               // end of the configuration prefix (work unit); call early
template <class T> const T &mc_pick(const std::vector<T> &v, const char *tag = "") { return v[mc_choose((int)v.size(), tag)]; }

// ---- partial-order reduced scheduling (used by coro.cc) --------------------
struct McAcc { uint64_t obj; uint64_t lo, hi; bool w; };      // access to [lo,hi) of an object
struct McOp { std::vector<McAcc> acc; };                      // what a process is about to do
bool mc_dependent(const McOp &a, const McOp &b);
// ops[p]: what process p would do next (also for blocked ones; empty if finished). Returns the process to run.
int  mc_schedule(uint32_t enabled, int nproc, const std::vector<McOp> &ops);
void mc_hb_edge(int from, int to);                            // everything 'from' did happens before what 'to' does next
void mc_hb_export(int p, std::vector<int> &clk);
void mc_hb_import(int p, const std::vector<int> &clk);

// ---- reporting -------------------------------------------------------------
[[noreturn]] void mc_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define MC_CHECK(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // line of the trace of this execution
void mc_state(uint64_t h);            // a (hash of a) state reached: counted, distinct ones too
void mc_transitions(uint64_t n = 1);  // operations executed on the code under test
void mc_count(int k, uint64_t n = 1); // harness specific counters 0..15
void mc_counter_name(int k, const char *name);
uint64_t mc_hash(const void *p, size_t n, uint64_t h = 0x9E3779B97F4A7C15ull);
inline uint64_t mc_hash_str(const std::string &s, uint64_t h = 0x9E3779B97F4A7C15ull) { return mc_hash(s.data(), s.size(), h); }
bool mc_replaying();
bool mc_thorough();
extern const char *mc_scratch;        // per worker scratch directory (current directory of the worker)
void mc_wipe(const char *dir);        // empty a directory (inside the scratch directory)

// ---- modules whose globals are restored before every execution ------------------
void mc_track_module(const char *substr);

struct McOpts {
    const char *property;
    void (*run)();                 // one execution
    int deviations = 0;            // deviation bound
    int hang_s = 60;
    void (*worker_init)() = nullptr;
    const char *counters[16] = {};
    const char *describe = "";
};
// argv: --out FILE --replay-dir DIR --jobs N --budget S --tier T [--replay FILE]
int mc_main(int argc, char **argv, McOpts o);
extern void (*mc_before_exec)();      // optional hooks for the layers (mcfs, sched)
extern void (*mc_after_exec)();
