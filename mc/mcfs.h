// File system layer: every system call of the code under test that touches files is intercepted (seccomp trap),
// and can be logged, made to fail, be the point of a crash, or be a scheduling point.
#pragma once
#include "mc.h"
#include <functional>
#include <map>
#include <set>
struct McfsCall { long nr; long a[6]; const char *name; std::string path, path2; bool mut; int fd; int64_t off; size_t len; };
void mcfs_install();              // worker_init of the harness
enum { MCFS_OFF, MCFS_LOG, MCFS_FAULT, MCFS_CRASH, MCFS_SCHED, MCFS_SCHED_FAULT };   // the last: a scheduling point, then it may fail
void mcfs_on(int mode);           // interception for the following library calls
void mcfs_off();
int mcfs_mode();
void mcfs_reset();                // new execution
bool mcfs_crashed();              // the crash point was passed; everything after it has had no effect
void mcfs_heal();                 // sticky faults end
int  mcfs_faults();               // faults injected so far
int  mcfs_ncalls();               // calls intercepted
int  mcfs_leaked(std::string *what = nullptr);   // descriptors opened while intercepting and still open
extern void (*mcfs_yield)(McfsCall &c, std::function<McOp()> op);   // MCFS_SCHED: before the call; op: what it touches now
extern int (*mcfs_self)();        // current process number (for getpid)
extern int (*mcfs_choice)(int n, const char *tag);   // who decides about faults and crashes: mc_deviate
struct McfsScope { McfsScope(int m) { mcfs_on(m); } ~McfsScope() { mcfs_off(); } };
