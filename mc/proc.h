// Several "processes" inside one: each has its own copy of the library (own globals), and runs as a coroutine.
#pragma once
#include "bf.h"
#include "mcfs.h"
#include "coro.h"
#include <dlfcn.h>
#define PROC_FUNCS(X) X(big_file_open) X(big_file_create) X(big_file_close) X(big_file_list) X(big_file_open_block) X(big_file_create_block) X(big_block_grow) X(big_block_close) X(big_block_flush) X(big_block_seek) X(big_block_seek_rel) X(big_block_eof) X(big_block_write) X(big_block_read) X(big_block_read_simple) X(big_block_set_attr) X(big_block_get_attr) X(big_block_remove_attr) X(big_block_list_attrs) X(big_block_lookup_attr) X(big_file_get_error_message) X(big_file_set_error_message) X(big_file_set_buffer_size) X(big_array_init) X(big_record_type_add) X(big_record_type_set) X(big_record_type_clear) X(big_record_type_complete) X(big_file_create_records) X(big_file_write_records) X(big_file_read_records)
#ifdef WITH_MPI
#include <mpi.h>
#include <bigfile-mpi.h>
#include <mp-mpiu.h>
#define PROC_MPI_FUNCS(X) X(big_file_mpi_set_verbose) X(big_file_mpi_set_aggregated_threshold) X(big_file_mpi_get_aggregated_threshold) X(big_file_mpi_open) X(big_file_mpi_create) X(big_file_mpi_close) X(big_file_mpi_open_block) X(big_file_mpi_create_block) X(_big_file_mpi_create_block) X(big_block_mpi_grow) X(big_block_mpi_grow_simple) X(big_block_mpi_flush) X(big_block_mpi_close) X(big_block_mpi_write) X(big_block_mpi_read) X(big_file_mpi_create_records) X(big_file_mpi_write_records) X(big_file_mpi_read_records) X(MPIU_Alltoallv) X(MPIU_GetLoc) X(MPIU_Gather) X(MPIU_Scatter) X(MPIU_Segmenter_collect_sizes) X(MPIU_Segmenter_init) X(MPIU_Segmenter_destroy)
#else
#define PROC_MPI_FUNCS(X)
#endif
struct Lib {
    void *h = nullptr;
#define X(f) decltype(&::f) f = nullptr;
    PROC_FUNCS(X) PROC_MPI_FUNCS(X)
#undef X
    void load(const char *dir, int i) { str p = str(dir) + "/libbf" + std::to_string(i) + ".so"; h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(70); }
#define X(f) f = (decltype(f))dlsym(h, #f); if (!f) { fprintf(stderr, "no " #f "\n"); exit(70); }
        PROC_FUNCS(X) PROC_MPI_FUNCS(X)
#undef X
    }
    const char *err() const { char *e = big_file_get_error_message(); return e ? e : "(no message)"; }
};
static Lib L[8];
static inline void procs_load(const char *argv0, int n) { str d = argv0; d = d.substr(0, d.rfind('/')); for (int i = 0; i < n; i++) L[i].load(d.c_str(), i); mc_track_module("libbf"); }
#define LOK(l, call) do { int rt__ = (l).call; if (rt__ != 0) mc_fail("%d: " #call " failed (%d): %s", sched_self(), rt__, (l).err()); } while (0)
