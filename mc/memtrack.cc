#include "memtrack.h"
#include <map>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <errno.h>
#include <dirent.h>
#include <unistd.h>
struct Blk { size_t n; void *pc; };
static std::map<void *, Blk> &live() { static auto *m = new std::map<void *, Blk>; return *m; }
static void *add(void *p, size_t n, void *pc) { int e = errno; if (p) live()[p] = {n, pc}; errno = e; return p; }
static void drop(void *p) { int e = errno; live().erase(p); errno = e; }
void mem_reset() { live().clear(); }
void mem_free(void *p) { drop(p); free(p); }
extern "C" void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out, size_t n);
int mem_live(std::string *what) {
    int k = 0; for (auto &x : live()) { if (what && k++ < 4) { char b[300] = ""; __sanitizer_symbolize_pc(x.second.pc, "%f", b, sizeof b); *what += std::to_string(x.second.n) + " bytes allocated in " + b + "; "; } }
    return live().size();
}
#define PC __builtin_return_address(0)
extern "C" {
void *__wrap_malloc(size_t n) { return add(malloc(n), n, PC); }
void *__wrap_calloc(size_t a, size_t b) { return add(calloc(a, b), a * b, PC); }
void *__wrap_realloc(void *p, size_t n) { void *q = realloc(p, n); if (q || !n) { drop(p); add(q, n, PC); } return q; }
void *__wrap_reallocarray(void *p, size_t a, size_t b) { void *q = reallocarray(p, a, b); if (q || !(a * b)) { drop(p); add(q, a * b, PC); } return q; }
void __wrap_free(void *p) { drop(p); free(p); }
char *__wrap_strdup(const char *s) { return (char *)add(strdup(s), strlen(s) + 1, PC); }
char *__wrap___strdup(const char *s) { return (char *)add(strdup(s), strlen(s) + 1, PC); }
char *__wrap_strndup(const char *s, size_t n) { char *p = strndup(s, n); return (char *)add(p, n, PC); }
char *__wrap___strndup(const char *s, size_t n) { char *p = strndup(s, n); return (char *)add(p, n, PC); }
int __wrap_vasprintf(char **o, const char *f, va_list v) { int r = vasprintf(o, f, v); if (r >= 0) add(*o, r + 1, PC); return r; }
int __wrap_asprintf(char **o, const char *f, ...) { va_list v; va_start(v, f); int r = vasprintf(o, f, v); va_end(v); if (r >= 0) add(*o, r + 1, PC); return r; }
int __wrap_scandir(const char *d, struct dirent ***l, int (*f)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **)) { int n = scandir(d, l, f, c); if (n >= 0) { add(*l, n, PC); for (int i = 0; i < n; i++) add((*l)[i], 1, PC); } return n; }
int __wrap_scandir64(const char *d, struct dirent64 ***l, int (*f)(const struct dirent64 *), int (*c)(const struct dirent64 **, const struct dirent64 **)) { int n = scandir64(d, l, f, c); if (n >= 0) { add(*l, n, PC); for (int i = 0; i < n; i++) add((*l)[i], 1, PC); } return n; }
ssize_t __wrap_getdelim(char **l, size_t *n, int d, FILE *f) { drop(*l); ssize_t r = getdelim(l, n, d, f); add(*l, *n, PC); return r; }
ssize_t __wrap_getline(char **l, size_t *n, FILE *f) { drop(*l); ssize_t r = getline(l, n, f); add(*l, *n, PC); return r; }
char *__wrap_realpath(const char *p, char *o) { char *r = realpath(p, o); return o ? r : (char *)add(r, 1, PC); }
char *__wrap_getcwd(char *o, size_t n) { char *r = getcwd(o, n); return o ? r : (char *)add(r, n, PC); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = posix_memalign(p, a, n); if (!r) add(*p, n, PC); return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { return add(aligned_alloc(a, n), n, PC); }
}
