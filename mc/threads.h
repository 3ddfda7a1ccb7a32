// Threads as coroutines: the library is compiled with the compiler's race detection instrumentation, the run time below makes every
// access to memory that more than one thread can reach a scheduling point.
#pragma once
#include "mc.h"
void thr_init(void *anchor);        // after loading: anchor is a function of the library
void thr_reset();                   // before every execution
void thr_in(bool on);               // the current thread enters / leaves the library
void thr_touch(const void *p, size_t n, bool w);   // the harness itself accesses memory of the library
int thr_points();
void thr_bounded(bool on);          // schedules with few preemptions instead of reduction: the number of deviations bounds them
void thr_record(bool on);           // on: each thread runs alone, what they write to shared memory is remembered as the places to preempt at
