#pragma once
#include "../coro.h"
extern int fmpi_sync;          // 0: calls return as early as MPI permits, 1: as late
extern bool fmpi_wildcards;    // explore every arrival order of messages
extern void (*fmpi_abort_hook)(int status);
void fmpi_start(int nranks);   // before sched_run
int fmpi_leaked(std::string *what);   // communicators, datatypes, requests not freed
void fmpi_finish();            // after: everything matched?
std::string fmpi_log(int rank);   // the collective operations a rank took part in
uint64_t fmpi_ncoll();
