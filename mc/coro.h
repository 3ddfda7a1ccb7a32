// Cooperative processes under the control of the explorer: each runs until it reaches a point where what it does next
// could matter to another one; mc_schedule decides who goes on, so every (inequivalent) interleaving is explored.
#pragma once
#include "mc.h"
#include <functional>
void sched_run(int n, std::function<void(int)> body);      // returns when all have finished
int  sched_self();                                         // -1 outside
void sched_point(std::function<McOp()> op);                // about to do this (op: evaluated in every state while waiting)
void sched_wait(const std::string &what, std::function<bool()> ready, std::function<McOp()> op = nullptr);   // blocked until ready()
[[noreturn]] void sched_exit();                            // this process ends here
[[noreturn]] void sched_kill_all();                        // all of them end here
std::string sched_where();                                 // what everybody is doing
void sched_fs();                                           // worker_init: every file system call of MCFS_SCHED is a point
extern void (*sched_switch_hook)(int from, int to);        // -1: nobody
extern int (*sched_pick)(uint32_t enabled, int n, const std::vector<McOp> &ops);   // decides instead of mc_schedule
