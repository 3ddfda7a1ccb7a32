#include "mcfs.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <stddef.h>
#include <ucontext.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>
#include <algorithm>
extern "C" long mcfs_rawsys(long n, long a, long b, long c, long d, long e, long f);
extern "C" char mcfs_rawsys_end[];
__asm__(".globl mcfs_rawsys\n.globl mcfs_rawsys_end\nmcfs_rawsys: mov %rdi,%rax; mov %rsi,%rdi; mov %rdx,%rsi; mov %rcx,%rdx; mov %r8,%r10; mov %r9,%r8; mov 8(%rsp),%r9; syscall\nmcfs_rawsys_end: ret\n");
static long raw(long n, const long *a) { return mcfs_rawsys(n, a[0], a[1], a[2], a[3], a[4], a[5]); }
static long raw6(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return mcfs_rawsys(n, a, b, c, d, e, f); }

static int mode; static bool installed;
static bool crashed; static int nfaults, ncalls;
struct Undo { int64_t off; std::string old; int64_t size; };
struct Fd { std::string path; bool wr; uint64_t ino; std::vector<Undo> undo; };
static std::map<int, Fd> fds;
static long sticky_nr = -1, sticky_err; static std::string sticky_path; static bool sticky_any;
void (*mcfs_yield)(McfsCall &, std::function<McOp()>); int (*mcfs_self)();

struct Def { long nr; const char *name; };
static const Def defs[] = {
    {SYS_open, "open"}, {SYS_openat, "open"}, {SYS_creat, "creat"}, {SYS_read, "read"}, {SYS_pread64, "pread"}, {SYS_readv, "readv"}, {SYS_write, "write"}, {SYS_pwrite64, "pwrite"}, {SYS_writev, "writev"}, {SYS_lseek, "lseek"}, {SYS_close, "close"},
    {SYS_mkdir, "mkdir"}, {SYS_mkdirat, "mkdir"}, {SYS_rmdir, "rmdir"}, {SYS_unlink, "unlink"}, {SYS_unlinkat, "unlink"}, {SYS_rename, "rename"}, {SYS_renameat, "rename"}, {SYS_renameat2, "rename"}, {SYS_link, "link"}, {SYS_linkat, "link"}, {SYS_symlink, "symlink"}, {SYS_symlinkat, "symlink"},
    {SYS_truncate, "truncate"}, {SYS_ftruncate, "ftruncate"}, {SYS_fallocate, "fallocate"}, {SYS_stat, "stat"}, {SYS_lstat, "stat"}, {SYS_newfstatat, "stat"}, {SYS_fstat, "fstat"}, {SYS_access, "access"}, {SYS_faccessat, "access"}, {SYS_faccessat2, "access"}, {SYS_statx, "statx"},
    {SYS_getdents64, "getdents"}, {SYS_utimes, "utimes"}, {SYS_utimensat, "utimes"}, {SYS_futimesat, "utimes"}, {SYS_utime, "utimes"}, {SYS_chmod, "chmod"}, {SYS_fchmod, "fchmod"}, {SYS_fchmodat, "chmod"}, {SYS_fsync, "fsync"}, {SYS_fdatasync, "fdatasync"}, {SYS_dup, "dup"}, {SYS_dup2, "dup2"}, {SYS_dup3, "dup3"}, {SYS_flock, "flock"}, {SYS_getpid, "getpid"}};

static std::string at(long dfd, long p) { const char *s = (const char *)p; if (!s) return ""; if (*s == '/' || (int)dfd == AT_FDCWD || fds.count((int)dfd) == 0) return s; return *s ? fds[(int)dfd].path + "/" + s : fds[(int)dfd].path; }
static void decode(McfsCall &c) {
    long *a = c.a; c.fd = -1; c.off = -1; c.len = 0; c.mut = false;
    auto byfd = [&]() { c.fd = (int)a[0]; auto i = fds.find(c.fd); c.path = i == fds.end() ? "" : i->second.path; };
    switch (c.nr) {
    case SYS_open: c.path = at(AT_FDCWD, a[0]); c.mut = (a[1] & O_TRUNC) || (a[1] & O_CREAT); break;
    case SYS_creat: c.path = at(AT_FDCWD, a[0]); c.mut = true; break;
    case SYS_openat: c.path = at(a[0], a[1]); c.mut = (a[2] & O_TRUNC) || (a[2] & O_CREAT); break;
    case SYS_read: case SYS_readv: byfd(); c.len = a[2]; c.off = raw6(SYS_lseek, c.fd, 0, SEEK_CUR); break;
    case SYS_write: byfd(); c.len = a[2]; c.off = raw6(SYS_lseek, c.fd, 0, SEEK_CUR); c.mut = true; break;
    case SYS_writev: { byfd(); struct iovec *v = (struct iovec *)a[1]; for (int i = 0; i < a[2]; i++) c.len += v[i].iov_len; c.off = raw6(SYS_lseek, c.fd, 0, SEEK_CUR); c.mut = true; break; }
    case SYS_pread64: byfd(); c.len = a[2]; c.off = a[3]; break;
    case SYS_pwrite64: byfd(); c.len = a[2]; c.off = a[3]; c.mut = true; break;
    case SYS_ftruncate: case SYS_fallocate: case SYS_fchmod: byfd(); c.mut = true; break;
    case SYS_lseek: case SYS_close: case SYS_fstat: case SYS_getdents64: case SYS_fsync: case SYS_fdatasync: case SYS_dup: case SYS_dup2: case SYS_dup3: case SYS_flock: byfd(); break;
    case SYS_mkdir: case SYS_rmdir: case SYS_unlink: case SYS_truncate: case SYS_chmod: case SYS_utimes: case SYS_utime: c.path = at(AT_FDCWD, a[0]); c.mut = true; break;
    case SYS_mkdirat: case SYS_unlinkat: case SYS_fchmodat: case SYS_futimesat: c.path = at(a[0], a[1]); c.mut = true; break;
    case SYS_utimensat: if (a[1]) c.path = at(a[0], a[1]); else byfd(); c.mut = true; break;
    case SYS_rename: case SYS_link: case SYS_symlink: c.path = at(AT_FDCWD, a[0]); c.path2 = at(AT_FDCWD, a[1]); c.mut = true; break;
    case SYS_renameat: case SYS_renameat2: case SYS_linkat: c.path = at(a[0], a[1]); c.path2 = at(a[2], a[3]); c.mut = true; break;
    case SYS_symlinkat: c.path2 = at(a[1], a[2]); c.mut = true; break;
    case SYS_stat: case SYS_lstat: case SYS_access: c.path = at(AT_FDCWD, a[0]); break;
    case SYS_newfstatat: case SYS_statx: case SYS_faccessat: case SYS_faccessat2: c.path = at(a[0], a[1]); if (c.path.empty() || !*(const char *)a[1]) byfd(); break;
    }
}
static long flags_of(const McfsCall &c) { return c.nr == SYS_openat ? c.a[2] : c.nr == SYS_open ? c.a[1] : O_CREAT | O_TRUNC | O_WRONLY; }
static bool is_open(const McfsCall &c) { return c.nr == SYS_openat || c.nr == SYS_open || c.nr == SYS_creat; }
static bool is_write(const McfsCall &c) { return c.nr == SYS_write || c.nr == SYS_pwrite64 || c.nr == SYS_writev; }
static bool is_read(const McfsCall &c) { return c.nr == SYS_read || c.nr == SYS_pread64 || c.nr == SYS_readv; }

static long do_raw(McfsCall &c) {
    if (c.nr == SYS_close) { long r = raw(c.nr, c.a); fds.erase((int)c.a[0]); return r; }
    long r = raw(c.nr, c.a);
    if (is_open(c) && r >= 0) { struct stat st; uint64_t ino = 0; if (raw6(SYS_fstat, r, (long)&st) == 0) ino = st.st_ino; fds[(int)r] = {c.path, (flags_of(c) & O_ACCMODE) != O_RDONLY, ino}; }
    if ((c.nr == SYS_dup || c.nr == SYS_dup2 || c.nr == SYS_dup3) && r >= 0 && fds.count(c.fd)) fds[(int)r] = fds[c.fd];
    return r;
}
static long partial(McfsCall &c, size_t n) {      // transfer only n bytes
    if (c.nr == SYS_writev || c.nr == SYS_readv) { struct iovec *v = (struct iovec *)c.a[1]; long done = 0; for (int i = 0; i < c.a[2] && n; i++) { size_t k = std::min(n, (size_t)v[i].iov_len); long r = raw6(c.nr == SYS_writev ? SYS_write : SYS_read, c.fd, (long)v[i].iov_base, k); if (r < 0) return done ? done : r; done += r; n -= r; if (r < (long)k) break; } return done; }
    long a[6]; memcpy(a, c.a, sizeof a); a[2] = n; return raw(c.nr, a);
}
static void remember(McfsCall &c) {               // what this write replaces, in case the close fails
    auto i = fds.find(c.fd); if (i == fds.end() || i->second.undo.size() > 64 || c.len > 65536) return;
    struct stat st; if (raw6(SYS_fstat, c.fd, (long)&st)) return; Undo u; u.off = c.off; u.size = st.st_size; if (u.size > u.off) { u.old.resize(std::min<size_t>(c.len, u.size - u.off)); int fd = raw6(SYS_openat, AT_FDCWD, (long)i->second.path.c_str(), O_RDONLY); if (fd < 0) return; raw6(SYS_pread64, fd, (long)&u.old[0], u.old.size(), u.off); raw6(SYS_close, fd); }
    i->second.undo.push_back(u);
}
static void lose(McfsCall &c) {                   // a failing close loses what was written through this descriptor
    auto i = fds.find(c.fd); if (i == fds.end()) return; auto &u = i->second.undo;
    for (size_t k = u.size(); k-- > 0;) { if (!u[k].old.empty()) raw6(SYS_pwrite64, c.fd, (long)u[k].old.data(), u[k].old.size(), u[k].off); raw6(SYS_ftruncate, c.fd, u[k].size); }
}
static long fault(McfsCall &c) {
    if (is_write(c)) remember(c);
    if (sticky_nr >= 0 && (c.nr == sticky_nr || (sticky_any && is_write(c))) && (sticky_any || c.path == sticky_path)) { nfaults++; if (c.nr == SYS_close) do_raw(c); mc_note("    %s(%s): fails again", c.name, c.path.c_str()); return -sticky_err; }
    // errors this call can give; negative entries are partial transfers
    static const int O_R[] = {EACCES, EIO, EMFILE}, O_W[] = {EACCES, ENOSPC, EMFILE}, RD[] = {EIO, -1}, WR[] = {ENOSPC, EIO, -1, -2, -3}, ONE[] = {EIO}, MK[] = {EACCES, ENOSPC}, MU[] = {EACCES, EIO};
    const int *e = ONE; int n = 1; bool st = false;
    if (is_open(c)) { bool w = (flags_of(c) & O_ACCMODE) != O_RDONLY; e = w ? O_W : O_R; n = 3; st = true; }
    else if (is_read(c)) { e = RD; n = c.len > 1 ? 2 : 1; st = true; }
    else if (is_write(c)) { e = WR; n = c.len > 2 ? 5 : c.len > 1 ? 4 : 2; st = true; }
    else if (c.nr == SYS_mkdir || c.nr == SYS_mkdirat) { e = MK; n = 2; }
    else if (c.mut) { e = MU; n = 2; }
    else if (c.nr == SYS_dup || c.nr == SYS_getpid) return do_raw(c);
    int k = mcfs_choice(1 + n + (st ? n : 0), c.name);
    if (k == 0) return do_raw(c);
    nfaults++; bool stick = k > n; int err = e[(k - 1) % n];
    if (err < 0) {       // partial: half of it (-1); a single byte (-2) or all but one (-3), then the device is full
        size_t part = err == -1 ? (c.len + 1) / 2 : err == -3 ? c.len - 1 : 1; long r = partial(c, part);
        mc_note("    %s(%s, %zu): only %ld bytes%s", c.name, c.path.c_str(), c.len, r, err == -2 ? ", then the device is full" : err == -3 ? ", then the file can not grow" : "");
        if (err < -1) { sticky_nr = c.nr; sticky_err = ENOSPC; sticky_path = c.path; sticky_any = err == -2; } return r; }
    mc_note("    %s(%s): %s%s", c.name, c.path.c_str(), strerror(err), stick ? ", from now on" : "");
    if (stick) { sticky_nr = c.nr; sticky_err = err; sticky_path = c.path; sticky_any = is_write(c); }
    if (c.nr == SYS_close) { lose(c); do_raw(c); }
    return -err;
}
static long ghost(McfsCall &c) {
    if (is_open(c) && ((flags_of(c) & O_ACCMODE) != O_RDONLY || (flags_of(c) & (O_CREAT | O_TRUNC)))) { long r = raw6(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDWR | O_CLOEXEC); if (r >= 0) fds[(int)r] = {c.path, true, 0}; return r; }
    if (is_write(c)) return c.len;
    if (c.nr == SYS_unlink || c.nr == SYS_rmdir || c.nr == SYS_unlinkat || c.nr == SYS_rename) return raw6(SYS_access, (long)c.path.c_str(), 0) == 0 || c.nr == SYS_rename ? 0 : -ENOENT;
    if (c.mut) return 0;
    return do_raw(c);
}
static long crash(McfsCall &c) {
    if (crashed) return ghost(c);
    if (!c.mut) return do_raw(c);
    std::vector<size_t> t;       // torn writes
    if (is_write(c) && c.len > 1) { if (mc_thorough() && c.len <= 96) for (size_t i = 1; i < c.len; i++) t.push_back(i); else { t.push_back(1); if (c.len > 2) t.push_back(c.len / 2); if (c.len > 3) t.push_back(c.len - 1); if (c.len > 8) t.push_back(c.len / 4), t.push_back(c.len * 3 / 4), t.push_back(c.len - 2); } }
    int k = mcfs_choice(2 + (int)t.size(), c.name);
    if (k == 0) return do_raw(c);
    crashed = true;
    if (k == 1) { mc_note("    crash before %s(%s%s%s)", c.name, c.path.c_str(), c.path2.empty() ? "" : ", ", c.path2.c_str()); return ghost(c); }
    mc_note("    crash after %zu of the %zu bytes of %s(%s)", t[k - 2], c.len, c.name, c.path.c_str()); partial(c, t[k - 2]); return c.len;
}
// ---- dependencies
static uint64_t hn(const std::string &p, uint64_t s) { return mc_hash_str(p, s); }
static std::string parent(const std::string &p) { size_t k = p.rfind('/'); return k == std::string::npos ? "." : k == 0 ? "/" : p.substr(0, k); }
static void canon(std::string &p) { std::string r; size_t i = 0; bool abs = !p.empty() && p[0] == '/'; while (i <= p.size()) { size_t e = p.find('/', i); if (e == std::string::npos) e = p.size(); std::string s = p.substr(i, e - i); if (!s.empty() && s != ".") r += (r.empty() ? (abs ? "/" : "") : "/") + s; i = e + 1; } if (r.empty()) r = abs ? "/" : "."; p = r; }
static void name_acc(McOp &o, std::string p, bool w) {
    canon(p); o.acc.push_back({hn(p, 11), 0, 1, w}); if (w) { uint64_t h = hn(p, 12) >> 8; o.acc.push_back({hn(parent(p), 13), h, h + 1, true}); }
    std::string q = p; while (q != "." && q != "/") { q = parent(q); o.acc.push_back({hn(q, 11), 0, 1, false}); }
}
static bool deps(const McfsCall &c, McOp &o) {     // false: no scheduling point
    struct stat st;
    auto content = [&](uint64_t ino, uint64_t lo, uint64_t hi, bool w) { o.acc.push_back({mc_hash(&ino, 8, 14), lo, hi, w}); };
    auto inode = [&](const std::string &p) -> uint64_t { return raw6(SYS_stat, (long)p.c_str(), (long)&st) == 0 ? st.st_ino : 0; };
    uint64_t ino = c.fd >= 0 && fds.count(c.fd) ? fds[c.fd].ino : 0;
    if (is_open(c)) { uint64_t i = inode(c.path); bool creates = (flags_of(c) & O_CREAT) && !i; name_acc(o, c.path, creates); if (i && (flags_of(c) & O_TRUNC)) content(i, 0, UINT64_MAX, true); return true; }
    if (is_read(c)) { content(ino, c.off, c.off + c.len, false); return true; }
    if (is_write(c)) { uint64_t lo = c.off; if (raw6(SYS_fstat, c.fd, (long)&st) == 0 && (uint64_t)st.st_size < lo) lo = st.st_size; content(ino, lo, c.off + c.len, true); return true; }
    switch (c.nr) {
    case SYS_lseek: if ((int)c.a[2] == SEEK_SET || (int)c.a[2] == SEEK_CUR) return false; content(ino, 0, UINT64_MAX, false); return true;
    case SYS_fstat: content(ino, 0, UINT64_MAX, false); return true;
    case SYS_ftruncate: case SYS_fallocate: content(ino, 0, UINT64_MAX, true); return true;
    case SYS_getdents64: { std::string p = c.path; canon(p); o.acc.push_back({hn(p, 13), 0, UINT64_MAX, false}); return true; }
    case SYS_close: case SYS_dup: case SYS_dup2: case SYS_dup3: case SYS_fsync: case SYS_fdatasync: case SYS_utimes: case SYS_utimensat: case SYS_utime: case SYS_futimesat: return false;
    case SYS_truncate: { name_acc(o, c.path, false); uint64_t i = inode(c.path); content(i, 0, UINT64_MAX, true); return true; }
    case SYS_stat: case SYS_lstat: case SYS_newfstatat: case SYS_statx: if (c.fd >= 0) { content(ino, 0, UINT64_MAX, false); return true; } name_acc(o, c.path, false); { uint64_t i = inode(c.path); if (i) content(i, 0, UINT64_MAX, false); } return true;
    case SYS_access: case SYS_faccessat: case SYS_faccessat2: name_acc(o, c.path, false); return true;
    default: if (!c.path.empty()) { uint64_t i = inode(c.path); bool changes = true; if (c.nr == SYS_mkdir || c.nr == SYS_mkdirat) changes = !i; name_acc(o, c.path, changes); } if (!c.path2.empty()) name_acc(o, c.path2, true); return true;
    }
}
static void on_sigsys(int, siginfo_t *, void *u) {
    greg_t *g = ((ucontext_t *)u)->uc_mcontext.gregs;
    long nr = g[REG_RAX]; long a[6] = {(long)g[REG_RDI], (long)g[REG_RSI], (long)g[REG_RDX], (long)g[REG_R10], (long)g[REG_R8], (long)g[REG_R9]};
    if (mode == MCFS_OFF) { g[REG_RAX] = raw(nr, a); return; }
    int e = errno; long r;
    if (nr == SYS_getpid) { g[REG_RAX] = 4000 + (mcfs_self ? mcfs_self() : 0); return; }
    McfsCall c; c.nr = nr; memcpy(c.a, a, sizeof a); c.name = "?"; for (auto &d : defs) if (d.nr == nr) { c.name = d.name; break; }
    int m = mode; if (m != MCFS_SCHED && m != MCFS_SCHED_FAULT) mode = MCFS_OFF; // our own calls
    decode(c);
    bool own = c.fd >= 0 && !fds.count(c.fd) && c.path.empty();     // descriptors of the harness (stderr)
    if (own) r = raw(nr, a);
    else {
        ncalls++; mc_transitions();
        if (m == MCFS_FAULT) r = fault(c); else if (m == MCFS_CRASH) r = crash(c);
        else if (m == MCFS_SCHED || m == MCFS_SCHED_FAULT) { McOp o; mode = MCFS_OFF; if (mcfs_yield && deps(c, o)) mcfs_yield(c, [&c]() { McOp x; deps(c, x); return x; }); r = m == MCFS_SCHED ? do_raw(c) : fault(c); }
        else r = do_raw(c);
    }
    mode = m; errno = e; g[REG_RAX] = r;
}
void mcfs_install() {
    if (installed) return; installed = true;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sigsys; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSYS, &sa, 0);
    uint64_t ip = (uint64_t)mcfs_rawsys_end; std::vector<sock_filter> f; int n = sizeof defs / sizeof *defs;
    auto S = [&](unsigned short c, uint32_t k) { f.push_back(BPF_STMT(c, k)); };
    S(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer)); f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ip, 0, 3));
    S(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4); f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(ip >> 32), 0, 1)); S(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    S(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (int i = 0; i < n; i++) f.push_back(BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)defs[i].nr, (unsigned char)(n - i), 0));
    S(BPF_RET | BPF_K, SECCOMP_RET_ALLOW); S(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    struct sock_fprog p = {(unsigned short)f.size(), f.data()};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) { perror("seccomp"); _exit(70); }
}
void mcfs_reset() { mode = MCFS_OFF; crashed = false; nfaults = ncalls = 0; fds.clear(); mcfs_heal(); }
void mcfs_heal() { sticky_nr = -1; sticky_any = false; }
void mcfs_on(int m) { mode = m; }
int mcfs_mode() { return mode; }
void mcfs_off() { mode = MCFS_OFF; }
int (*mcfs_choice)(int, const char *) = mc_deviate;
bool mcfs_crashed() { return crashed; }
int mcfs_faults() { return nfaults; }
int mcfs_ncalls() { return ncalls; }
int mcfs_leaked(std::string *what) { int n = 0; for (auto &f : fds) if (fcntl(f.first, F_GETFD) >= 0) { n++; if (what) *what += f.second.path + " "; } return n; }
