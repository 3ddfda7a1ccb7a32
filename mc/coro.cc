#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "coro.h"
#include "mcfs.h"
#include <sys/mman.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#define ASAN 1
#endif
#pragma weak mcfs_mode
#pragma weak mcfs_on
static const size_t STK = 4 << 20;
extern "C" void sched_swap(void **save, void *to);
__asm__(".globl sched_swap\nsched_swap: push %rbp; push %rbx; push %r12; push %r13; push %r14; push %r15; mov %rsp,(%rdi); mov %rsi,%rsp; pop %r15; pop %r14; pop %r13; pop %r12; pop %rbx; pop %rbp; ret\n");
struct P { void *sp = nullptr; char *stack = nullptr; void *fake = nullptr; bool done = true; std::function<McOp()> op; std::function<bool()> ready; std::string what; };
static P ps[32]; static int np, cur = -1; static void *main_sp, *main_fake; static const void *main_stk; static size_t main_len; static bool killed;
static std::function<void(int)> *body;
void (*sched_switch_hook)(int, int); int (*sched_pick)(uint32_t, int, const std::vector<McOp> &);
int sched_self() { return cur; }
static void to_main(bool dying) {
    P &p = ps[cur]; int me = cur, m = mcfs_mode ? mcfs_mode() : 0, e = errno; if (m) mcfs_on(0);
#ifdef ASAN
    __sanitizer_start_switch_fiber(dying ? nullptr : &p.fake, main_stk, main_len);
#endif
    sched_swap(&p.sp, main_sp);
#ifdef ASAN
    __sanitizer_finish_switch_fiber(p.fake, &main_stk, &main_len);
#endif
    (void)me; errno = e; if (m) mcfs_on(m);
}
static void entry() {
#ifdef ASAN
    __sanitizer_finish_switch_fiber(nullptr, &main_stk, &main_len);
#endif
    (*body)(cur); sched_exit();
}
void sched_exit() { if (mcfs_mode && mcfs_mode()) mcfs_on(0); ps[cur].done = true; to_main(true); abort(); }
void sched_kill_all() { killed = true; sched_exit(); }
static void go(int p) {
    if (sched_switch_hook) sched_switch_hook(-1, p);
    cur = p;
#ifdef ASAN
    __sanitizer_start_switch_fiber(&main_fake, ps[p].stack, STK);
#endif
    sched_swap(&main_sp, ps[p].sp);
#ifdef ASAN
    __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
#endif
    cur = -1;
    if (sched_switch_hook) sched_switch_hook(p, -1);
}
void sched_point(std::function<McOp()> op) { P &p = ps[cur]; p.op = op; p.ready = nullptr; p.what = "running"; to_main(false); }
void sched_wait(const std::string &what, std::function<bool()> ready, std::function<McOp()> op) { P &p = ps[cur]; p.op = op; p.ready = ready; p.what = what; to_main(false); p.ready = nullptr; p.what = "running"; }
std::string sched_where() { std::string s; for (int i = 0; i < np; i++) s += (i ? "; " : "") + std::to_string(i) + ": " + (ps[i].done ? "finished" : ps[i].what); return s; }
void sched_run(int n, std::function<void(int)> b) {
    if (n > 32) abort(); np = n; body = &b; killed = false;
    for (int i = 0; i < n; i++) { P &p = ps[i];
        if (!p.stack) { p.stack = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p.stack == MAP_FAILED) abort(); mprotect(p.stack, 4096, PROT_NONE); }
#ifdef ASAN
        __asan_unpoison_memory_region(p.stack + 4096, STK - 4096);
#endif
        void **s = (void **)(p.stack + STK - 64); *--s = 0; *--s = (void *)entry; for (int k = 0; k < 6; k++) *--s = 0; p.sp = s; p.done = false; p.op = nullptr; p.ready = nullptr; p.what = "not started"; p.fake = nullptr; }
    std::vector<McOp> ops(n);
    for (;;) {
        uint32_t en = 0; bool all = true;
        for (int i = 0; i < n; i++) { ops[i] = McOp(); if (ps[i].done) continue; all = false; if (ps[i].op) ops[i] = ps[i].op(); if (!ps[i].ready || ps[i].ready()) en |= 1u << i; }
        if (all || killed) break;
        if (!en) mc_fail("nobody can go on: %s", sched_where().c_str());
        go(sched_pick ? sched_pick(en, n, ops) : mc_schedule(en, n, ops));
    }
    cur = -1; np = 0;
}
static void fs_yield(McfsCall &c, std::function<McOp()> op) { if (cur < 0) return; ps[cur].what = std::string(c.name) + "(" + c.path + ")"; P &p = ps[cur]; p.op = op; p.ready = nullptr; to_main(false); mc_note("    %d: %s(%s%s%s) %ld %zu", cur, c.name, c.path.c_str(), c.path2.empty() ? "" : " -> ", c.path2.c_str(), (long)c.off, c.len); }
static int fs_self() { return cur < 0 ? 99 : cur; }
#pragma weak mcfs_install
#pragma weak mcfs_yield
#pragma weak mcfs_self
void sched_fs() { mcfs_install(); mcfs_yield = fs_yield; mcfs_self = fs_self; }
// ASan's own versions of these keep state per thread, which is wrong when coroutines switch in the middle of one
#include <dlfcn.h>
#include <dirent.h>
static void *libc_fn(const char *n) { static void *h = dlopen("libc.so.6", RTLD_NOW | RTLD_NOLOAD); return dlsym(h, n); }
extern "C" int scandir(const char *d, struct dirent ***l, int (*f)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **)) { static auto r = (decltype(&scandir))libc_fn("scandir"); return r(d, l, f, c); }
extern "C" int scandir64(const char *d, struct dirent64 ***l, int (*f)(const struct dirent64 *), int (*c)(const struct dirent64 **, const struct dirent64 **)) { static auto r = (decltype(&scandir64))libc_fn("scandir64"); return r(d, l, f, c); }
