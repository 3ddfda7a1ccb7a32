// Runs the command line tools: the compiled ones in a forked child (with the sanitizers and the file system layer), the scripts
// for real, in a child whose system calls can be traced.
#pragma once
#include "bf.h"
#include "mcfs.h"
#include <dlfcn.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
typedef std::vector<str> strs;
struct Res { int status = 0; str out, err; int points = 0; int faults = 0;      // status: exit status, or 1000 + signal
    bool ok() const { return status == 0; } bool failed() const { return status > 0 && status != 99 && status < 126; } str why() const { return status >= 1000 ? sprintfs("is killed by signal %d", status - 1000) : sprintfs("exits with status %d", status); } };
struct Shared { int points, at, kind, faults; int nopts[1000]; char name[1000][16]; };
static Shared *shd;
static str tools_dir;
static inline void tools_init(const char *argv0) { tools_dir = argv0; tools_dir = tools_dir.substr(0, tools_dir.rfind('/')); if (tools_dir[0] != '/') { char b[4096]; tools_dir = str(getcwd(b, sizeof b)) + "/" + tools_dir; } }
static int nth_choice(int n, const char *name) { int p = shd->points++; if (p < 1000) { shd->nopts[p] = n; strncpy(shd->name[p], name, 15); } if (p == shd->at) { shd->faults = 1; return std::min(shd->kind, n - 1); } return 0; }
typedef int (*toolmain)(int, char **);
static inline toolmain tool_sym(const str &name) { static std::map<str, toolmain> m; auto &t = m[name]; if (!t) { void *h = dlopen((tools_dir + "/" + name + ".so").c_str(), RTLD_NOW | RTLD_LOCAL); if (h) t = (toolmain)dlsym(h, "tool_main"); if (!t) { fprintf(stderr, "%s: %s\n", name.c_str(), dlerror()); exit(70); } } return t; }
struct RunOpts { str in; const char *in_path = nullptr; const char *out_path = nullptr; int mode = MCFS_OFF, at = -1, kind = 0; };   // at, kind: the at'th call gets this fault
static inline str fdslurp(int fd) { str s; char b[65536]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); return s; }
static inline int devnull() { static int f = open("/dev/null", O_RDWR | O_CLOEXEC); return f; }
static inline Res tool(const strs &args, const RunOpts &o = {}) {
    toolmain tm = tool_sym(args[0]); if (!shd) shd = (Shared *)mmap(0, sizeof *shd, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); static int fo = memfd_create("o", MFD_CLOEXEC), fe = memfd_create("e", MFD_CLOEXEC), fi = memfd_create("i", MFD_CLOEXEC);
    ftruncate(fo, 0); ftruncate(fe, 0); ftruncate(fi, 0); lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET); pwrite(fi, o.in.data(), o.in.size(), 0); lseek(fi, 0, SEEK_SET);
    shd->points = shd->faults = 0; shd->at = o.at; shd->kind = o.kind; mc_transitions(); Res r;
    pid_t p = fork(); if (p < 0) { perror("fork"); _exit(70); }
    if (!p) {
        for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGALRM, SIGPROF, SIGTERM, SIGINT}) if (s != SIGSEGV && s != SIGFPE) signal(s, SIG_DFL);
        struct itimerval t = {{0, 0}, {6, 0}}; setitimer(ITIMER_PROF, &t, 0); alarm(45);
        int i = o.in_path ? open(o.in_path, O_RDONLY) : fi, ou = o.out_path ? open(o.out_path, O_WRONLY) : fo; dup2(i, 0); dup2(ou, 1); dup2(fe, 2);
        std::vector<str> a = args; std::vector<char *> v; for (auto &x : a) v.push_back(&x[0]); v.push_back(nullptr);
        optind = 1; if (o.mode != MCFS_OFF) { mcfs_install(); mcfs_reset(); mcfs_choice = nth_choice; mcfs_on(o.mode); }
        int rt = tm(a.size(), v.data()); mcfs_off(); fflush(NULL); _exit(rt & 255);
    }
    int st; waitpid(p, &st, 0); r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); r.out = fdslurp(fo); r.err = fdslurp(fe); r.points = shd->points; r.faults = shd->faults;
    if (r.status == 99) mc_fail("%s corrupts memory: %s", args[0].c_str(), r.err.substr(0, 1500).c_str());
    if (r.status == 1000 + SIGPROF || r.status == 1000 + SIGALRM) mc_fail("%s does not end", args[0].c_str());
    return r;
}
extern "C" void tool_exit(int s) { mcfs_off(); fflush(NULL); _exit(s & 255); }
static inline str join(const strs &a) { str s; for (auto &x : a) s += (s.empty() ? "" : " ") + (x.empty() || x.find(' ') != str::npos ? "'" + x + "'" : x); return s; }
