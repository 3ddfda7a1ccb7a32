#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "tsanwrap.h"
#include "threads.h"
#include "coro.h"
#include "mcfs.h"
#include <sys/mman.h>
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <unordered_map>
#include <set>
#include <tuple>
// ---- memory: every block of a thread is on pages of its own, so that an access after free faults
static const size_t PG = 4096, ARENA = 96 << 20; static const int NT = 8;
struct Blk { size_t size, pages; bool shared, freed; int seq; };
static char *arena[NT]; static size_t used[NT], high[NT]; static std::unordered_map<uintptr_t, Blk> blks; static std::vector<std::pair<uintptr_t, size_t>> prot; static bool inlib[NT]; static int npoints, seq; static bool atmem[NT]; static std::vector<uintptr_t> shared_list;
static uintptr_t glo, ghi, rlo, rhi; static size_t tls_size, tls_init_size; static const char *tls_image; static char *tls_blk[NT + 1]; static size_t tls_mod; 
static uintptr_t pend[NT]; static size_t pendn[NT];
struct Off { bool s; int me; Off() : me(sched_self()) { s = me >= 0 && inlib[me]; if (me >= 0) inlib[me] = false; } ~Off() { if (me >= 0) inlib[me] = s; } };
static bool active() { int c = sched_self(); return c >= 0 && inlib[c]; }
static int owner(uintptr_t a) { for (int i = 0; i < NT; i++) if (arena[i] && a >= (uintptr_t)arena[i] && a < (uintptr_t)arena[i] + ARENA) return i; return -1; }
static Blk *blk(uintptr_t a, uintptr_t *base = nullptr) { int o = owner(a); if (o < 0) return nullptr; uintptr_t p = a & ~(PG - 1); for (int k = 0; k < 20000 && p >= (uintptr_t)arena[o]; k++, p -= PG) { auto i = blks.find(p); if (i != blks.end()) { if (a >= p + i->second.pages * PG) return nullptr; if (base) *base = p; return &i->second; } } return nullptr; }
static void publish(uintptr_t v) { uintptr_t b; Blk *x = blk(v, &b); if (!x || x->shared || x->freed) return; x->shared = true; shared_list.push_back(b); for (size_t o = 0; o + 8 <= x->size; o += 8) publish(*(uintptr_t *)(b + o)); }
static bool is_global(uintptr_t a) { return a >= glo && a < ghi && !(a >= rlo && a < rhi); }
static bool reachable(uintptr_t a) { if (is_global(a)) return true; uintptr_t b; Blk *x = blk(a, &b); return x && x->shared; }
static void acc(McOp &o, uintptr_t a, size_t n, bool w) { if (!n) n = 1; if (is_global(a)) { o.acc.push_back({0x61 << 8, a - glo, a - glo + n, w}); return; } uintptr_t b; Blk *x = blk(a, &b); if (x && x->shared) o.acc.push_back({b, a - b, a - b + n, w}); }
static void settle() { int c = sched_self(); if (c < 0 || !pendn[c]) return; uintptr_t a = pend[c]; size_t n = pendn[c]; pendn[c] = 0; if (!reachable(a)) return; for (uintptr_t p = (a + 7) & ~7ul; p + 8 <= a + n; p += 8) publish(*(uintptr_t *)p); }
// what the threads write when each runs alone: preempting elsewhere is useless
static bool recording; static std::set<std::tuple<uint64_t, uint64_t, uint64_t>> written;
static bool matters(const McOp &o) { for (auto &a : o.acc) for (auto &w : written) if (std::get<0>(w) == a.obj && std::get<1>(w) < a.hi && a.lo < std::get<2>(w)) return true; return false; }
static void point(McOp o) { if (o.acc.empty()) return; npoints++; int c = sched_self(); if (recording) { for (auto &a : o.acc) if (a.w) written.insert({a.obj, a.lo, a.hi}); } else atmem[c] = matters(o); sched_point([o]() { return o; }); atmem[c] = false; }
static void touch(uintptr_t a, size_t n, bool w) { if (!active()) return; Off off; settle(); if (reachable(a)) { McOp o; acc(o, a, n, w); point(o); if (w && n >= 8) { int c = sched_self(); pend[c] = a; pendn[c] = n; } } }
static void touch2(const void *d, size_t dn, const void *s, size_t sn) { if (!active()) return; Off off; settle(); McOp o; if (d) acc(o, (uintptr_t)d, dn, true); if (s) acc(o, (uintptr_t)s, sn, false); point(o); if (d && reachable((uintptr_t)d)) { int c = sched_self(); pend[c] = (uintptr_t)d; pendn[c] = dn; } }
static void touch_args(const void *d, size_t dn) { if (!active()) return; Off off; settle(); McOp o; if (d) acc(o, (uintptr_t)d, dn, true); o.acc.push_back({0x61 << 8, 0, ghi - glo, false}); for (auto b : shared_list) { auto &x = blks[b]; o.acc.push_back({b, 0, x.size ? x.size : 1, false}); } point(o); }
void thr_touch(const void *p, size_t n, bool w) { bool s = inlib[sched_self()]; inlib[sched_self()] = true; touch((uintptr_t)p, n, w); inlib[sched_self()] = s; }
void thr_in(bool on) { int c = sched_self(); if (!on && c >= 0) { Off off; settle(); } if (c >= 0) inlib[c] = on; }
// few preemptions: a thread goes on until it is done, unless one of the bounded number of deviations takes the processor away before an access to shared memory
static int running;
static int bounded(uint32_t en, int n, const std::vector<McOp> &) { std::vector<int> v; bool go = running >= 0 && en >> running & 1; if (go) v.push_back(running); for (int i = 0; i < n; i++) if (en >> i & 1 && i != running) v.push_back(i); int k = 0; if (v.size() > 1) { if (!go) k = mc_choose(v.size(), "next thread"); else if (atmem[running]) k = mc_deviate(v.size(), "preempt"); } return running = v[k]; }
void thr_record(bool on) { recording = on; if (on) written.clear(); }
void thr_bounded(bool on) { running = -1; sched_pick = on ? bounded : nullptr; }
int thr_points() { return npoints; }
extern "C" {
void *rt_malloc(size_t n) { if (!active()) return malloc(n); Off off; settle(); int c = sched_self(); size_t pages = n / PG + 1; if (used[c] + (pages + 1) * PG > ARENA) { errno = ENOMEM; return NULL; } char *p = arena[c] + used[c]; used[c] += (pages + 1) * PG; if (used[c] > high[c]) high[c] = used[c]; memset(p, 0xBE, std::min<size_t>(n, 65536)); blks[(uintptr_t)p] = {n, pages, false, false, seq++}; return p; }
void *rt_calloc(size_t a, size_t b) { if (!active()) return calloc(a, b); size_t n; if (__builtin_mul_overflow(a, b, &n)) return NULL; void *p = rt_malloc(n); if (p) memset(p, 0, n); return p; }
void rt_free(void *p) { if (!p) return; if (owner((uintptr_t)p) < 0) { free(p); return; } Off off; settle(); uintptr_t b; Blk *x = blk((uintptr_t)p, &b); if (!x || b != (uintptr_t)p) mc_fail("free of an address that was not allocated"); if (x->shared && sched_self() >= 0 && off.s) { McOp o; o.acc.push_back({b, 0, std::max<size_t>(x->size, 1), true}); point(o); x = blk((uintptr_t)p, &b); } if (x->freed) mc_fail("memory is freed twice%s", x->shared ? " by threads that share it" : ""); x->freed = true; mprotect((void *)b, x->pages * PG, PROT_NONE); prot.push_back({b, x->pages * PG}); }
void *rt_realloc(void *p, size_t n) { if (!p) return rt_malloc(n); if (owner((uintptr_t)p) < 0) { if (!active()) return realloc(p, n); } uintptr_t b; Blk *x = blk((uintptr_t)p, &b); size_t old = x ? x->size : 0; void *q = rt_malloc(n); if (!q) return NULL; touch2(NULL, 0, p, old); memcpy(q, p, std::min(old, n)); rt_free(p); return q; }
size_t rt_strlen(const char *s) { touch2(NULL, 0, s, 1); return strlen(s); }
char *rt_strdup(const char *s) { touch2(NULL, 0, s, 1); size_t n = strlen(s) + 1; char *r = (char *)rt_malloc(n); if (r) memcpy(r, s, n); return r; }
char *rt_strndup(const char *s, size_t m) { touch2(NULL, 0, s, m); size_t n = strnlen(s, m); char *r = (char *)rt_malloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
char *rt_strcpy(char *d, const char *s) { touch2(d, strlen(s) + 1, s, strlen(s) + 1); return strcpy(d, s); }
char *rt_strncpy(char *d, const char *s, size_t n) { touch2(d, n, s, strnlen(s, n)); return strncpy(d, s, n); }
char *rt_strcat(char *d, const char *s) { touch2(d, strlen(d) + strlen(s) + 1, s, strlen(s) + 1); return strcat(d, s); }
char *rt_strncat(char *d, const char *s, size_t n) { touch2(d, strlen(d) + n + 1, s, strnlen(s, n)); return strncat(d, s, n); }
int rt_strcmp(const char *a, const char *b) { touch2(NULL, 0, a, 1); touch2(NULL, 0, b, 1); return strcmp(a, b); }
int rt_strncmp(const char *a, const char *b, size_t n) { touch2(NULL, 0, a, 1); touch2(NULL, 0, b, 1); return strncmp(a, b, n); }
char *rt_strtok(char *s, const char *d) { static char *last; static const uint64_t id = 0x57470c; if (active()) { Off off; settle(); McOp o; o.acc.push_back({id, 0, 1, true}); point(o); } if (!s) s = last; if (!s) return NULL; s += strspn(s, d); if (!*s) { last = NULL; return NULL; } char *e = s + strcspn(s, d); if (*e) *e++ = 0; else e = NULL; last = e; return s; }
void *rt_memcpy(void *d, const void *s, size_t n) { touch2(d, n, s, n); return memcpy(d, s, n); }
void *rt_memmove(void *d, const void *s, size_t n) { touch2(d, n, s, n); return memmove(d, s, n); }
void *rt_memset(void *d, int c, size_t n) { touch2(d, n, NULL, 0); return memset(d, c, n); }
int rt_memcmp(const void *a, const void *b, size_t n) { touch2(NULL, 0, a, n); touch2(NULL, 0, b, n); return memcmp(a, b, n); }
int rt_vsnprintf(char *d, size_t n, const char *f, va_list v) { touch_args(d, n); return vsnprintf(d, n, f, v); }
int rt_vsprintf(char *d, const char *f, va_list v) { va_list w; va_copy(w, v); int n = vsnprintf(NULL, 0, f, w); va_end(w); touch_args(d, n + 1); return vsprintf(d, f, v); }
int rt_sprintf(char *d, const char *f, ...) { va_list v; va_start(v, f); int r = rt_vsprintf(d, f, v); va_end(v); return r; }
int rt_snprintf(char *d, size_t n, const char *f, ...) { va_list v; va_start(v, f); int r = rt_vsnprintf(d, n, f, v); va_end(v); return r; }
int rt_fprintf(FILE *h, const char *f, ...) { touch_args(NULL, 0); va_list v; va_start(v, f); int r = vfprintf(h, f, v); va_end(v); return r; }
int rt_sscanf(const char *s, const char *f, ...) { touch2(NULL, 0, s, strlen(s) + 1); va_list v; va_start(v, f); int r = vsscanf(s, f, v); va_end(v); return r; }
size_t rt_fread(void *p, size_t a, size_t b, FILE *f) { touch2(p, a * b, NULL, 0); return fread(p, a, b, f); }
size_t rt_fwrite(const void *p, size_t a, size_t b, FILE *f) { touch2(NULL, 0, p, a * b); return fwrite(p, a, b, f); }
void rt_qsort(void *p, size_t n, size_t w, int (*c)(const void *, const void *)) { touch2(p, n * w, NULL, 0); qsort(p, n, w, c); }
static std::unordered_map<void *, int> mtx;
int rt_pthread_mutex_lock(pthread_mutex_t *m) { if (!active()) return 0; Off off; settle(); McOp o; o.acc.push_back({(uint64_t)m, 0, 1, true}); npoints++; sched_wait("waiting for a mutex", [m]() { return mtx[m] == 0; }, [o]() { return o; }); mtx[m] = sched_self() + 1; return 0; }
int rt_pthread_mutex_unlock(pthread_mutex_t *m) { if (!active()) return 0; Off off; settle(); McOp o; o.acc.push_back({(uint64_t)m, 0, 1, true}); point(o); mtx[m] = 0; return 0; }
pthread_t rt_pthread_self() { int c = sched_self(); return c < 0 ? pthread_self() : (pthread_t)(0x7000 + c); }
int rt_gettid() { int c = sched_self(); return c < 0 ? gettid() : 5000 + c; }
// ---- what the compiler emits
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() { if (active()) { Off off; settle(); } }
#define RW(n) void __tsan_read##n(void *p) { touch((uintptr_t)p, n, false); } void __tsan_write##n(void *p) { touch((uintptr_t)p, n, true); } void __tsan_unaligned_read##n(void *p) { touch((uintptr_t)p, n, false); } void __tsan_unaligned_write##n(void *p) { touch((uintptr_t)p, n, true); } void __tsan_volatile_read##n(void *p) { touch((uintptr_t)p, n, false); } void __tsan_volatile_write##n(void *p) { touch((uintptr_t)p, n, true); } void __tsan_read_write##n(void *p) { touch((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { touch((uintptr_t)p, n, false); } void __tsan_write_range(void *p, unsigned long n) { touch((uintptr_t)p, n, true); }
#define AT(n, T) T __tsan_atomic##n##_load(const volatile T *p, int) { touch((uintptr_t)p, n / 8, false); return *p; } void __tsan_atomic##n##_store(volatile T *p, T v, int) { touch((uintptr_t)p, n / 8, true); *p = v; } \
T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { touch((uintptr_t)p, n / 8, true); T o = *p; *p = v; return o; } T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { touch((uintptr_t)p, n / 8, true); T o = *p; *p = o + v; return o; } T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { touch((uintptr_t)p, n / 8, true); T o = *p; *p = o - v; return o; } T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { touch((uintptr_t)p, n / 8, true); T o = *p; *p = o & v; return o; } T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { touch((uintptr_t)p, n / 8, true); T o = *p; *p = o | v; return o; } T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { touch((uintptr_t)p, n / 8, true); T o = *p; *p = o ^ v; return o; } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { touch((uintptr_t)p, n / 8, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, a, b); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// thread local variables of the library: one set per thread
typedef struct { unsigned long m, o; } TI;
void *__tls_get_addr(TI *ti) { static void *(*real)(TI *); int c = sched_self(); if (c >= 0 && tls_mod && ti->m == tls_mod) return tls_blk[c] + ti->o; if (!real) real = (void *(*)(TI *))dlsym(RTLD_NEXT, "__tls_get_addr"); return real(ti); }
}
static int phdr(struct dl_phdr_info *i, size_t, void *a) {
    bool mine = false; for (int k = 0; k < i->dlpi_phnum; k++) { auto &p = i->dlpi_phdr[k]; uintptr_t s = i->dlpi_addr + p.p_vaddr; if (p.p_type == PT_LOAD && (uintptr_t)a >= s && (uintptr_t)a < s + p.p_memsz) mine = true; } if (!mine) return 0;
    glo = ~0ul; for (int k = 0; k < i->dlpi_phnum; k++) { auto &p = i->dlpi_phdr[k]; uintptr_t s = i->dlpi_addr + p.p_vaddr; if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) { glo = std::min(glo, s); ghi = std::max(ghi, s + p.p_memsz); } if (p.p_type == PT_GNU_RELRO) { rlo = s; rhi = s + p.p_memsz; } if (p.p_type == PT_TLS) { tls_size = p.p_memsz; tls_init_size = p.p_filesz; tls_image = (const char *)s; tls_mod = i->dlpi_tls_modid; } }
    return 1; }
void thr_init(void *anchor) { dl_iterate_phdr(phdr, anchor); for (int i = 0; i < NT; i++) { arena[i] = (char *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); tls_blk[i] = (char *)aligned_alloc(64, tls_size + 128 & ~63ul); } }
void thr_reset() { for (auto &p : prot) mprotect((void *)p.first, p.second, PROT_READ | PROT_WRITE); prot.clear(); for (int i = 0; i < NT; i++) { used[i] = 0; inlib[i] = atmem[i] = false; pendn[i] = 0; memset(tls_blk[i], 0, tls_size); memcpy(tls_blk[i], tls_image, tls_init_size); } blks.clear(); shared_list.clear(); mtx.clear(); npoints = seq = 0; }
