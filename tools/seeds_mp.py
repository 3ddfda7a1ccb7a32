import os, runpy
C = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_core.py"))
B, H, demo = C["B"], C["H"], C["demo"]
P, U = "src/bigfile-mpi.c", "src/mp-mpiu.c"
def mpi_sh(n, lim=40): return '''#!/bin/bash
# run in /repo after the build
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
mpicc -O1 -g -I src -o "$t/demo" "$d/demo.c" src/bigfile.c src/bigfile-record.c src/bigfile-mpi.c src/mp-mpiu.c -lm || exit 0
cd "$t" && timeout -k 5 %d mpirun --oversubscribe -n %d ./demo
''' % (lim, n)
HM = H.replace('#include "bigfile.h"', '#include <mpi.h>\n#include "bigfile-mpi.h"\n#include "mp-mpiu.h"').replace("exit(1)", "fflush(stdout); MPI_Abort(MPI_COMM_WORLD, 1)")
def mpi_demo(body): return HM + """
#define W MPI_COMM_WORLD
static int R, N;
int main(int argc, char ** argv) { MPI_Init(&argc, &argv); MPI_Comm_rank(W, &R); MPI_Comm_size(W, &N); BigFile bf[1]; BigBlock b[1]; BigBlockPtr q; BigArray a;
 NEED(0 == big_file_mpi_create(bf, "f", W), "create");
""" + body + "\n MPI_Finalize(); return 0; }\n"
def mpi(id, prop, n, edits, body, needs, breaks): return dict(id=id, property=prop, edits=edits, demo=mpi_demo(body), sh=mpi_sh(n), needs=needs, breaks=breaks)
SEEDS = [
 mpi("agg-offset", "C13", 3, [(P, """        /* use the offset on the first task in the SegGroup */
        size_t offset = myoffset;
        MPI_Bcast(&offset, 1, MPI_LONG, 0, seggrp->Segment);
""", """        /* the leader does the I/O, it starts at its offset */
        size_t offset = myoffset;
        MPI_Bcast(&offset, 1, MPI_LONG, seggrp->segment_leader_rank, seggrp->Segment);
""")], r'''
 size_t fs[1] = {6}, n = 3 - R; int v[3], i, at = R == 0 ? 0 : R == 1 ? 3 : 5; for(i = 0; i < 3; i ++) v[i] = 100 + at + i; size_t d[2] = {n, 1};
 big_file_mpi_set_aggregated_threshold(1000);
 NEED(0 == _big_file_mpi_create_block(bf, b, "x", "i4", 1, 1, fs, W), "create"); big_array_init(&a, v, "i4", 2, d, NULL);
 NEED(0 == big_block_seek(b, &q, 0), "seek"); NEED(0 == big_block_mpi_write(b, &q, &a, 1, W), "write");
 NEED(0 == big_block_mpi_close(b, W), "close"); NEED(0 == big_file_mpi_open_block(bf, b, "x", W), "open");
 int w[6]; NEED(0 == rd(b, 0, w, "i4", 6, 1), "read"); for(i = 0; i < 6; i ++) NEED(w[i] == 100 + i, "row %d is %d", i, w[i]);
''', "aggregation, with a segment of several ranks where the one with the least data is not the first", "aggregated rows are placed at the offset of the segment's leader"),
 mpi("group-error", "C14", 4, [(P, """    if(0 == (rt = big_file_mpi_broadcast_anyerror(rt, comm))) {
        /* no errors*/""", """    if(0 == (rt = big_file_mpi_broadcast_anyerror(rt, seggrp->Group))) {
        /* no errors*/""")], r'''
 size_t fs[4] = {1, 1, 1, 1}; int v = 7; size_t d[2] = {1, 1};
 NEED(0 == _big_file_mpi_create_block(bf, b, "x", "i4", 1, 4, fs, W), "create"); big_array_init(&a, &v, "i4", 2, d, NULL);
 NEED(0 == big_block_seek(b, &q, 0), "seek"); MPI_Barrier(W); if(R == 0) { unlink("f/x/000000"); mkdir("f/x/000000", 0755); } MPI_Barrier(W);
 int rt = big_block_mpi_write(b, &q, &a, 2, W); int bad = rt != 0, all; MPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_SUM, W);
 NEED(all == N, "the write of one rank fails, %d of %d ranks know", all, N);
''', "a collective access of several groups (concurrency of at least 2) of which one fails", "ranks of other groups take the call for successful"),
 mpi("create-return", "C14", 3, [(P, """        FILE * fp = _big_file_open_a_file(bb->basename, i, "w", 1);
        if(fp == NULL) {
            rt = -1;
            break;
        }
        fclose(fp);
    }

    BCAST_AND_RAISEIF(rt, comm);

    return rt;
}

int
big_block_mpi_grow(""", """        FILE * fp = _big_file_open_a_file(bb->basename, i, "w", 1);
        if(fp == NULL) {
            return -1;
        }
        fclose(fp);
    }

    BCAST_AND_RAISEIF(rt, comm);

    return rt;
}

int
big_block_mpi_grow(""")], r'''
 size_t fs[3] = {1, 1, 1}; struct rlimit none = {3, 3}; alarm(20); if(R == 1) { int i; getrlimit(RLIMIT_NOFILE, &none); none.rlim_cur = 3; setrlimit(RLIMIT_NOFILE, &none); }
 int rt = _big_file_mpi_create_block(bf, b, "x", "i4", 1, 3, fs, W);
 if(R == 1) { none.rlim_cur = none.rlim_max; setrlimit(RLIMIT_NOFILE, &none); }
 NEED(rt != 0, "creating a block must fail if a rank can not create its files");
''', "a rank that can not create its data file while a block is created", "the other ranks wait forever"),
 mpi("msg-cap", "C14", 2, [(P, """    if(rank == root) {
        errorlen = strlen(error);
    }""", """    if(rank == root) {
        errorlen = strlen(error);
        /* a line is enough */
        if(errorlen > 119) errorlen = 119;
    }"""), (P, """    if(rank != root) {
        big_file_set_error_message(error);
        free(error);""", """    if(rank != root) {
        error[errorlen] = 0;
        big_file_set_error_message(error);
        free(error);""")], r'''
 char name[200]; memset(name, 'n', sizeof(name)); name[199] = 0; NEED(0 != big_file_mpi_open_block(bf, b, name, W), "opened?");
 int len = strlen(big_file_get_error_message()), mx; MPI_Allreduce(&len, &mx, 1, MPI_INT, MPI_MAX, W); NEED(len == mx, "the message of rank %d has %d characters, another one has %d", R, len, mx);
''', "a failure with a message of more than 119 characters", "ranks get different messages"),
 mpi("flush-skip", "C15", 2, [(P, """    BCAST_AND_RAISEIF(rt, comm);
    /* close as we will broadcast the block */
    if(rank != 0) {
        _big_block_close_internal(block);
    }
    big_block_mpi_broadcast(block, 0, comm);
    return 0;
""", """    BCAST_AND_RAISEIF(rt, comm);
    /* nothing to do if no rank has changed anything */
    int changed = dirty_before;
    MPI_Allreduce(MPI_IN_PLACE, &changed, 1, MPI_INT, MPI_LOR, comm);
    if(!changed) return 0;
    /* close as we will broadcast the block */
    if(rank != 0) {
        _big_block_close_internal(block);
    }
    big_block_mpi_broadcast(block, 0, comm);
    return 0;
"""), (P, """big_block_mpi_flush(BigBlock * block, MPI_Comm comm)
{
    if(comm == MPI_COMM_NULL) return 0;

    int rank;
""", """big_block_mpi_flush(BigBlock * block, MPI_Comm comm)
{
    if(comm == MPI_COMM_NULL) return 0;

    int dirty_before = block->dirty;
    int rank;
""")], r'''
 size_t fs[1] = {2}; NEED(0 == _big_file_mpi_create_block(bf, b, "x", "i4", 1, 1, fs, W), "create"); NEED(0 == big_block_mpi_flush(b, W), "flush");
 if(R == 0) NEED(0 == big_block_set_attr(b, "a", "v", "S1", 1), "set"); NEED(0 == big_block_mpi_flush(b, W), "flush");
 NEED(big_block_lookup_attr(b, "a"), "rank %d does not have the attribute", R);
''', "an attribute set by the root and a flush with no rows written since the last one", "the other ranks do not see the attribute"),
 mpi("ceil-files", "C15", 3, [(P, """    for(i = (size_t) Nfile_grow * rank / NTask; i < (size_t) Nfile_grow * (rank + 1) / NTask; i ++) {""", """    int chunk = (Nfile_grow + NTask - 1) / NTask;
    for(i = chunk * rank; i < chunk * (rank + 1) && i < oldNfile + Nfile_grow; i ++) {""")], r'''
 size_t fs[4] = {1, 1, 1, 1}; NEED(0 == _big_file_mpi_create_block(bf, b, "x", "i4", 1, 4, fs, W), "create"); NEED(0 == big_block_mpi_grow(b, 4, fs, W), "grow"); NEED(0 == big_block_mpi_close(b, W), "close"); MPI_Barrier(W);
 struct stat st; NEED(0 == stat("f/x/000007", &st), "a data file is missing"); NEED(0 != stat("f/x/000008", &st), "there is a data file too many");
''', "growing a block of several files by a number of files that is not a multiple of the number of ranks", "data files are made that do not belong to the block"),
 mpi("getloc-size", "C16", 3, [(U, """    if (memcmp(base, tmp, elsize) == 0) {""", """    if (memcmp(base, tmp, elsize < 4 ? elsize : 4) == 0) {""")], r'''
 long v = R == 0 ? 5 : R == 1 ? (1L << 40) + 5 : 3; int w = MPIU_GetLoc(&v, MPI_LONG, MPI_MAX, W); NEED(w == 1, "the maximum is on rank 1, not %d", w);
''', "values of a type wider than 4 bytes which are equal in their low 4 bytes", "a rank that does not hold the extremum is returned"),
 mpi("send-extent", "C16", 2, [(U, """                ((char*) sendbuf) + send_elsize * sdispls[target],
                sendcnts[target],
                sendtype, target, 101934, comm, &requests[n_requests++]);""".replace("                ((char*) sendbuf)", "        MPI_Isend(((char*) sendbuf)"), """        MPI_Isend(((char*) sendbuf) + recv_elsize * sdispls[target],
                sendcnts[target],
                sendtype, target, 101934, comm, &requests[n_requests++]);""")], r'''
 int s[4] = {10 * R, 10 * R + 1, 10 * R + 2, 10 * R + 3}, r[4] = {0}, sc[2] = {1, 1}, rc[2] = {2, 2}; MPI_Datatype pair; MPI_Type_contiguous(2, MPI_INT, &pair); MPI_Type_commit(&pair);
 MPIU_Alltoallv(s, sc, NULL, pair, r, rc, NULL, MPI_INT, W, REQUIRED); int i; for(i = 0; i < 4; i ++) NEED(r[i] == 10 * (i / 2) + 2 * R + i % 2, "element %d on rank %d is %d", i, R, r[i]); MPI_Type_free(&pair);
''', "the sparse exchange with different types for sending and receiving", "the wrong elements are sent"),
 dict(id="mkdir-race", property="C12",
  edits=[(B, '''    mkdirret = mkdir(dirname, S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
''', '''    /* do not bother the metadata server if it is there already */
    if(0 == stat(dirname, &buf)) {
        utimes(dirname, NULL);
        return 0;
    }
    mkdirret = mkdir(dirname, S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
'''), (B, '''    RAISEIF((mkdirret !=0 && errno != EEXIST && stat(dirname, &buf)),
''', '''    RAISEIF(mkdirret !=0,
''')],
  demo=H + r'''
#include <sys/syscall.h>
static char racing[100]; static int armed;
/* somebody else creates the same directory just before we do */
int mkdir(const char * d, mode_t m) { if(armed && strstr(d, "common")) syscall(SYS_mkdir, d, m); return syscall(SYS_mkdir, d, m); }
int main(void) { BigFile bf[1]; BigBlock b[1]; size_t fs[1] = {2}; mk(bf); armed = 1;
 NEED(0 == big_file_create_block(bf, b, "common/mine", "i4", 1, 1, fs), "creating a block while another process creates one in the same new group");
 NEED(0 == big_block_close(b), "close"); return 0; }
''', needs="two processes creating blocks under the same new parent, one creating the directory between the other's stat and mkdir", breaks="one of two concurrent block creations fails"),
 dict(id="fill-gap", property="C12",
  edits=[(B, '''        RAISEIF(0 > fseek(fp, ptr->roffset * felsize, SEEK_SET),
                ex_seek,
                "Failed to seek in block `%s' at (%d:%td) (%s)", 
                bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
        RAISEIF(chunk_size != fwrite(''', '''        /* never leave holes, they fragment the file on some file systems */
        RAISEIF(0 > fseek(fp, 0, SEEK_END),
                ex_seek,
                "Failed to seek in block `%s' at (%d:%td) (%s)", 
                bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
        size_t present = ftell(fp);
        size_t missing = (size_t) ptr->roffset * felsize;
        if(missing > present && missing - present <= 65536) {
            char * zero = calloc(missing - present, 1);
            if(zero) fwrite(zero, 1, missing - present, fp);
            free(zero);
        }
        RAISEIF(0 > fseek(fp, ptr->roffset * felsize, SEEK_SET),
                ex_seek,
                "Failed to seek in block `%s' at (%d:%td) (%s)", 
                bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
        RAISEIF(chunk_size != fwrite(''')],
  demo=H + r'''
static int armed;
static void other(void) { FILE * f = fopen("f/x/000000", "r+"); int v = 77; fwrite(&v, 4, 1, f); fclose(f); armed = 0; }
/* another process writes the rows before ours in the meantime */
long ftell(FILE * f) { long r = ftello(f); if(armed) other(); return r; }
int main(void) { BigFile bf[1]; BigBlock b[1]; size_t fs[1] = {2}; int v[2] = {5, 0}; mk(bf);
 NEED(0 == big_file_create_block(bf, b, "x", "i4", 1, 1, fs), "create"); armed = 1;
 NEED(0 == wr(b, 1, v, "i4", 1, 1), "write"); if(armed) other();
 NEED(0 == rd(b, 0, v, "i4", 2, 1), "read"); NEED(v[1] == 5 && v[0] == 77, "rows are %d %d, expected 77 5", v[0], v[1]);
 NEED(0 == big_block_close(b), "close"); return 0; }
''', needs="two processes writing disjoint rows of one physical file, the earlier rows being written between the other's look at the file's size and its write", breaks="rows written by another process are overwritten with zeros"),
]
