// The file system layer (mcfs.cc) as a shared object for the Python harnesses: decisions are taken from a prefix, then the default.
#include "mcfs.h"
#include <string.h>
static std::vector<int> prefix; static size_t pos; struct Taken { int n, k; char tag[12]; }; static std::vector<Taken> taken;
static unsigned long ncalls_; static bool thorough_;
static int pick(int n, const char *tag) { int k = pos < prefix.size() ? prefix[pos] : 0; pos++; if (k >= n) k = n - 1; Taken t; t.n = n; t.k = k; strncpy(t.tag, tag, 11); t.tag[11] = 0; taken.push_back(t); return k; }
int mc_deviate(int n, const char *tag) { return pick(n, tag); }
void mc_note(const char *, ...) {}
void mc_transitions(uint64_t n) { ncalls_ += n; }
bool mc_thorough() { return thorough_; }
uint64_t mc_hash(const void *p, size_t n, uint64_t s) { const unsigned char *c = (const unsigned char *)p; uint64_t h = s * 0x9e3779b97f4a7c15ull + 1469598103934665603ull; while (n--) h = (h ^ *c++) * 1099511628211ull; return h; }
extern "C" {
void pymcfs_install(int th) { thorough_ = th; mcfs_choice = pick; mcfs_install(); }
void pymcfs_reset() { mcfs_reset(); }
void pymcfs_on(int mode, int n, const int *p) { prefix.assign(p, p + n); pos = 0; taken.clear(); mcfs_on(mode); }
int pymcfs_off() { mcfs_off(); return taken.size(); }
int pymcfs_taken(int i, int *n, char *tag) { *n = taken[i].n; strcpy(tag, taken[i].tag); return taken[i].k; }
void pymcfs_heal() { mcfs_heal(); }
int pymcfs_faults() { return mcfs_faults(); }
int pymcfs_leaked() { return mcfs_leaked(); }
unsigned long pymcfs_calls() { return ncalls_; }
}
