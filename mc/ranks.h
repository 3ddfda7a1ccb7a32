// Helpers for the collective harnesses
#pragma once
#include "proc.h"
#include "fakempi/fakempi.h"
static inline void ranks(int n, std::function<void(int, Lib &)> body) { fmpi_start(n); sched_run(n, [&](int r) { body(r, L[r]); }); mcfs_off(); fmpi_finish(); }
struct Cfg { const char *dt; int nm; sizes_t fs; };
static inline str rowsn(int stamp, size_t r0, size_t n, int rs) { str s; for (size_t i = 0; i < n; i++) s += rowpat(stamp, r0 + i, rs); return s; }
