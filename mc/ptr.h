// Runs scripts for real. Their calls that change files are seen before they happen: they can fail, or end a process or all of them;
// those that would change something outside of the scratch directory are refused.
#pragma once
#include "tools.h"
#include <sys/ptrace.h>
#include <sys/user.h>
#include <sys/uio.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <stddef.h>
enum { ACT_NONE, ACT_KILL_ALL, ACT_KILL, ACT_EIO, ACT_ENOSPC };
struct Traced { int status = 0; str out; strs calls; bool hit = false; bool ok() const { return status == 0; } bool failed() const { return status > 0; } };
static inline str rd_str(pid_t p, unsigned long a) { str s; while (a && s.size() < 4096) { char b[64]; size_t n = std::min<size_t>(64, 4096 - (a & 4095)); struct iovec l = {b, n}, r = {(void *)a, n}; ssize_t k = process_vm_readv(p, &l, 1, &r, 1, 0); if (k <= 0) break; size_t e = strnlen(b, k); s.append(b, e); if (e < (size_t)k) break; a += k; } return s; }
static inline str link_of(const str &p) { char b[4096]; ssize_t n = readlink(p.c_str(), b, sizeof b); return n > 0 ? str(b, n) : ""; }
static inline str at_path(pid_t p, long fd, unsigned long a) { str s = rd_str(p, a); if (s.empty() || s[0] == '/') return s; return ((int)fd == AT_FDCWD ? link_of(sprintfs("/proc/%d/cwd", p)) : link_of(sprintfs("/proc/%d/fd/%d", p, (int)fd))) + "/" + s; }
struct TC { const char *name; strs paths; bool fdonly = false; };
static inline TC decode_call(pid_t p, const struct user_regs_struct &g) {
    TC c; long n = g.orig_rax; c.name = "?"; auto P = [&](long fd, unsigned long a) { c.paths.push_back(at_path(p, fd, a)); };
    switch (n) {
    case SYS_open: case SYS_creat: c.name = "open"; P(AT_FDCWD, g.rdi); break; case SYS_openat: c.name = "openat"; P(g.rdi, g.rsi); break;
    case SYS_write: case SYS_pwrite64: case SYS_writev: c.name = "write"; c.fdonly = true; c.paths.push_back(link_of(sprintfs("/proc/%d/fd/%d", p, (int)g.rdi))); break;
    case SYS_ftruncate: case SYS_fallocate: case SYS_fchmod: case SYS_fchown: c.name = "ftruncate"; c.fdonly = true; c.paths.push_back(link_of(sprintfs("/proc/%d/fd/%d", p, (int)g.rdi))); break;
    case SYS_mkdir: case SYS_rmdir: case SYS_unlink: case SYS_truncate: case SYS_chmod: case SYS_chown: c.name = n == SYS_mkdir ? "mkdir" : n == SYS_rmdir ? "rmdir" : n == SYS_unlink ? "unlink" : n == SYS_truncate ? "truncate" : "chmod"; P(AT_FDCWD, g.rdi); break;
    case SYS_mkdirat: case SYS_unlinkat: case SYS_fchmodat: case SYS_fchownat: c.name = n == SYS_mkdirat ? "mkdirat" : n == SYS_unlinkat ? "unlinkat" : "fchmodat"; P(g.rdi, g.rsi); break;
    case SYS_utimensat: c.name = "utimensat"; if (g.rsi) P(g.rdi, g.rsi); else { c.fdonly = true; c.paths.push_back(link_of(sprintfs("/proc/%d/fd/%d", p, (int)g.rdi))); } break;
    case SYS_rename: case SYS_link: c.name = n == SYS_rename ? "rename" : "link"; P(AT_FDCWD, g.rdi); P(AT_FDCWD, g.rsi); break; case SYS_symlink: c.name = "symlink"; P(AT_FDCWD, g.rsi); break; case SYS_symlinkat: c.name = "symlinkat"; P(g.rsi, g.rdx); break;
    case SYS_renameat: case SYS_renameat2: case SYS_linkat: c.name = n == SYS_linkat ? "linkat" : "renameat"; P(g.rdi, g.rsi); P(g.rdx, g.r10); break;
    } return c; }
static const int traced_nrs[] = {SYS_write, SYS_pwrite64, SYS_writev, SYS_ftruncate, SYS_fallocate, SYS_fchmod, SYS_fchown, SYS_creat, SYS_mkdir, SYS_rmdir, SYS_unlink, SYS_truncate, SYS_chmod, SYS_chown, SYS_lchown, SYS_mkdirat, SYS_unlinkat, SYS_fchmodat, SYS_fchownat, SYS_utimensat, SYS_rename, SYS_link, SYS_symlink, SYS_symlinkat, SYS_renameat, SYS_renameat2, SYS_linkat, SYS_open, SYS_openat};
// only calls on paths with 'filter' in them count; number 'at' of them gets the action
static inline Traced traced(const strs &args, const str &filter = "", int at = -1, int act = 0) {
    static int fo = memfd_create("o", 0); static char root[4096]; getcwd(root, sizeof root); str in = str(root) + "/"; ftruncate(fo, 0); lseek(fo, 0, SEEK_SET); mc_transitions(); Traced r; int nul = devnull();
    strs a = args; a[0] = tools_dir + "/bin/" + a[0]; std::vector<char *> v; for (auto &x : a) v.push_back(&x[0]); v.push_back(nullptr);
    static std::vector<sock_filter> f; if (f.empty()) { auto S = [&](unsigned short c, uint32_t k) { f.push_back(BPF_STMT(c, k)); }; S(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)); int n = sizeof traced_nrs / sizeof *traced_nrs;
        // the last two only when opening for writing
        for (int i = 0; i < n - 2; i++) f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)traced_nrs[i], (unsigned char)(n - 2 - i + 8 - 1), 0));
        f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_openat, 2, 0)); f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_open, 3, 0)); S(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
        S(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[2])); f.push_back(BPF_JUMP(BPF_JMP | BPF_JA, 1, 0, 0)); S(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[1]));
        f.push_back(BPF_JUMP(BPF_JMP | BPF_JSET | BPF_K, O_WRONLY | O_RDWR | O_CREAT | O_TRUNC, 1, 0)); S(BPF_RET | BPF_K, SECCOMP_RET_ALLOW); S(BPF_RET | BPF_K, SECCOMP_RET_TRACE); }
    pid_t p = fork(); if (p < 0) { perror("fork"); _exit(70); }
    if (!p) { for (int s = 1; s < 32; s++) signal(s, SIG_DFL); setpgid(0, 0); dup2(nul, 0); dup2(fo, 1); dup2(fo, 2); alarm(50); ptrace(PTRACE_TRACEME, 0, 0, 0); raise(SIGSTOP); struct sock_fprog pr = {(unsigned short)f.size(), f.data()}; prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0); if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr)) { perror("seccomp"); _exit(70); } unsetenv("LD_PRELOAD"); execv(v[0], v.data()); _exit(71); }
    int st; std::set<pid_t> live = {p}; waitpid(p, &st, __WALL); ptrace(PTRACE_SETOPTIONS, p, 0, PTRACE_O_TRACESECCOMP | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACECLONE | PTRACE_O_EXITKILL); ptrace(PTRACE_CONT, p, 0, 0); bool dead = false; std::set<pid_t> fresh;
    while (!live.empty()) {
        pid_t q = waitpid(-1, &st, __WALL); if (q < 0) break;
        if (WIFEXITED(st) || WIFSIGNALED(st)) { live.erase(q); if (q == p) r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); continue; }
        if (!WIFSTOPPED(st)) continue; int sig = WSTOPSIG(st), ev = st >> 16; if (!live.count(q)) { live.insert(q); if (dead) kill(q, SIGKILL); }
        if (ev == PTRACE_EVENT_FORK || ev == PTRACE_EVENT_VFORK || ev == PTRACE_EVENT_CLONE) { unsigned long c = 0; ptrace(PTRACE_GETEVENTMSG, q, 0, &c); live.insert(c); fresh.insert(c); if (dead) kill(c, SIGKILL); ptrace(PTRACE_CONT, q, 0, 0); continue; }
        if (ev == PTRACE_EVENT_SECCOMP && !dead) {
            struct user_regs_struct g; ptrace(PTRACE_GETREGS, q, 0, &g); TC c = decode_call(q, g); bool inside = true, mine = false; str d = c.name;
            for (auto &x : c.paths) { bool i = x.compare(0, in.size(), in) == 0 && x.find("/../") == str::npos; if (!i) inside = false; else { d += " " + x.substr(in.size()); if (filter.empty() || x.find(filter, in.size()) != str::npos) mine = true; } if (!i && (c.fdonly || x == "/dev/null" || x == "/dev/tty")) inside = true; }
            if (!inside || c.paths.empty()) { g.orig_rax = -1; g.rax = -EACCES; ptrace(PTRACE_SETREGS, q, 0, &g); ptrace(PTRACE_CONT, q, 0, 0); r.out += "(refused: " + d + ")"; continue; }
            if (mine) { int k = r.calls.size(); r.calls.push_back(d); if (k == at) { r.hit = true; if (act == ACT_KILL_ALL) { dead = true; for (pid_t x : live) kill(x, SIGKILL); continue; } if (act == ACT_KILL) { kill(q, SIGKILL); continue; } g.orig_rax = -1; g.rax = act == ACT_EIO ? -EIO : -ENOSPC; ptrace(PTRACE_SETREGS, q, 0, &g); } }
            ptrace(PTRACE_CONT, q, 0, 0); continue; }
        if (sig == SIGSTOP && fresh.count(q)) { fresh.erase(q); sig = 0; } else if (sig == SIGSTOP && !ev) sig = 0; if (sig == SIGTRAP) sig = 0;
        ptrace(PTRACE_CONT, q, 0, sig);
    }
    r.out += fdslurp(fo); if (r.status == 1000 + SIGALRM) mc_fail("%s does not end", join(args).c_str()); return r;
}
